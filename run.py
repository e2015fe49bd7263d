#!/opt/venv/bin/python
import os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.run import main
sys.exit(main())
