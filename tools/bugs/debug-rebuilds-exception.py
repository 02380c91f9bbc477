PROPERTY='P34'
NEEDS='a decorated function that raises an exception with attributes or several arguments, such as an OSError'
BREAKS='debug_function raises a new exception of the same type with the text only: errno, attributes and arguments are lost and some types cannot be built at all'
EDITS=[('src/valori/utils/debugging.py','''            print(f"   Error: {str(e)}")
            raise
''','''            print(f"   Error: {str(e)}")
            raise type(e)(str(e)) from e
''')]
DEMO='''
import sys
from valori.utils.debugging import debug_function
err = OSError(2, "no such thing")
@debug_function
def f():
    raise err
try:
    f()
except Exception as e:
    sys.exit(not (type(e) is FileNotFoundError and e.errno == 2 and e.args == err.args))
sys.exit(1)
'''
