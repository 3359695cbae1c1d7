import sys
sys.path.insert(0,'/verif/rules'); sys.path.insert(0,'/verif/engine')
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512<<20)
from core import *
import core,build
def go():
    exec(compile(open(sys.argv[1]).read(),sys.argv[1],'exec'), globals())
t=threading.Thread(target=go);t.start();t.join()
