PROPERTY='P21'
NEEDS='remove_stopwords with word length limits and no stop words left in the text but overlong words'
BREAKS='texts without a stop word skip the word filter, so overlong and short words stay'
EDITS=[('src/valori/processors/cleaning.py',"""            words = text.split()
            filtered_words = [
""","""            words = text.split()
            if self._stopwords.isdisjoint(words):
                return text
            filtered_words = [
""")]
DEMO='''
import sys
from valori.processors.cleaning import CleaningProcessor
p = CleaningProcessor({"remove_stopwords": True, "max_word_length": 5})
p.initialize()
sys.exit(p.process({"text": "The longword cat"})["text"] != "cat")
'''
