from vf.core import Harness
HARNESSES = [Harness('integer', 'utils.c', 's', unwind=10, defs=['K=3'], checks=['bounds', 'pointer'], functions=['MMG5_swapbin'], bounds='every 32-bit integer'),
             Harness('real', 'utils.c', 's', unwind=10, defs=['K=4'], checks=['bounds', 'pointer'], functions=['MMG5_swapf', 'MMG5_swapd'], bounds='every single and double precision value')]
META = {'assumptions': [], 'notes': 'MMG5_swapbin_int is not called in the 32-bit integer build and is not covered'}
