#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough] [--only=substr] [-v]"""
import sys, os, importlib
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'analysis'))
sys.path.insert(0,os.path.join(HERE,'analysis','checks'))
sys.dont_write_bytecode=True
if __name__=='__main__':
    if '--selftest' in sys.argv:
        import interp, content, model, driver
        print('front end:',len(driver.Ctx(driver.REPO,'quick').prog.mods),'translation units'); sys.exit(0)
    import driver
    sys.exit(driver.main(sys.argv[1],importlib.import_module(sys.argv[1].lower()),sys.argv[2:]))
