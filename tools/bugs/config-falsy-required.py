PROPERTY='P32'
NEEDS='a required key whose value is 0, False, an empty string or an empty list'
BREAKS='validate_config takes a required key with a falsy value for a missing one'
EDITS=[('src/valori/utils/validation.py','''if key not in config]
        if missing_keys''','''if not config.get(key)]
        if missing_keys''')]
DEMO='''
import sys
from valori.utils.validation import validate_config
try:
    validate_config({"seed": 0, "name": ""}, required_keys=["seed", "name"])
except Exception as e:
    print(e)
    sys.exit(1)
'''
