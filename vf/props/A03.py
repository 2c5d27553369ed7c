from vf.props._api import entity_harnesses
HARNESSES = entity_harnesses(1, [0, 3, 5])
META = {'assumptions': []}
