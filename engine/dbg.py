import signal,sys,traceback
def h(*a):
    st=traceback.extract_stack()
    print('depth',len(st))
    for f in st[-60:]: print('  ',f.filename.split('/')[-1],f.lineno,f.name)
    import os; os._exit(1)
signal.signal(signal.SIGALRM,h); signal.alarm(int(sys.argv.pop(1)))
exec(open(sys.argv.pop(1)).read())
