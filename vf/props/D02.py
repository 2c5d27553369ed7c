from vf.props.D01 import build
HARNESSES = build(1)
META = {'assumptions': ['the phases themselves are replaced by stand-ins that succeed or fail arbitrarily', 'renumbering (SCOTCH) is replaced by a stand-in that succeeds', 'built without the elasticity solver: a rigid-motion run is refused as documented']}
