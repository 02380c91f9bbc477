PROPERTY='P32'
NEEDS='an id list with a number and its text, such as 1 and "1"'
BREAKS='validate_ids compares ids by their text and refuses lists with different ids of the same text'
EDITS=[('src/valori/utils/validation.py','''    if len(ids) != len(set(ids)):
''','''    if len(ids) != len(set(map(str, ids))):
''')]
DEMO='''
import sys
from valori.utils.validation import validate_ids
try:
    validate_ids([1, "1", "a"])
except Exception as e:
    print(e)
    sys.exit(1)
'''
