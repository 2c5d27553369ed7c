from vf.props._api import entity_harnesses
HARNESSES = entity_harnesses(2, [0, 3, 4, 5])
META = {'assumptions': []}
