"""limit.py BYTES COMMAND...: runs a command that cannot make files larger than that; writing more is an error."""
import os, resource, signal, sys
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
resource.setrlimit(resource.RLIMIT_FSIZE, (int(sys.argv[1]),) * 2)
os.execv(sys.argv[2], sys.argv[2:])
