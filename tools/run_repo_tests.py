import sys
sys.path[:0]=["/repo/python","/repo/tests","/verif"]
import dst.stubs; dst.stubs.install()
import pytest
sys.exit(pytest.main(["-q","-p","no:cacheprovider","-x" if 0 else "-q","/repo/tests","--timeout=900"]+sys.argv[1:]))
