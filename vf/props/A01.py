from vf.props._api import entity_harnesses
HARNESSES = entity_harnesses(3, [0, 1, 2, 3, 4, 5])
META = {}
