"""Another interpreter, which only loads what it is sent."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import w_transport
w_transport.peer_main(sys.argv[1], int(sys.argv[2]))
