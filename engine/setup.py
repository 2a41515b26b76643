"""setup_cmd: build the IR dumper from its committed source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
print(frontend.build_tool())
