#!/opt/venv-pypy/bin/python
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
import driver
sys.exit(driver.main(sys.argv))
