PROPERTY='P21'
NEEDS='special characters next to white space or at the ends of a text, with remove_special_chars'
BREAKS='special characters are replaced by spaces after the white space was normalized, so runs of spaces and trailing spaces remain'
EDITS=[('src/valori/processors/cleaning.py',"""        # Remove special characters
        if self.remove_special_chars:
            text = re.sub(self.special_chars_pattern, " ", text)

""",""""""),('src/valori/processors/cleaning.py',"""            text = text.strip()

""","""            text = text.strip()

        # Remove special characters
        if self.remove_special_chars:
            text = re.sub(self.special_chars_pattern, " ", text)

""")]
DEMO='''
import sys
from valori.processors.cleaning import CleaningProcessor
p = CleaningProcessor({"remove_special_chars": True})
p.initialize()
sys.exit(p.process({"text": "(one) two"})["text"] != "one two")
'''
