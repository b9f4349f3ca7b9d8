import sys,faulthandler
faulthandler.dump_traceback_later(int(sys.argv[1]),exit=True)
sys.argv=["pv/run.py"]+sys.argv[2:]
sys.path.insert(0,"/verif/pv")
exec(compile(open("/verif/pv/run.py").read(),"/verif/pv/run.py","exec"),{"__name__":"__main__","__file__":"/verif/pv/run.py"})
