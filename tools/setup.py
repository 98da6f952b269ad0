import sys, vlib
try:
    vlib.build("asan")
except vlib.MachineError as e:
    print(e)
    sys.exit(1)
