PROPERTY='P23'
NEEDS='replacing a parser by one that cannot be started'
BREAKS='the new parser is registered before it is started, so a failing replacement is chosen for files from then on'
EDITS=[('src/valori/parsers/registry.py',"""            parser = parser_class(config)
            parser.initialize()
            self.parsers[name] = parser
            self.parser_classes[name] = parser_class
""","""            parser = parser_class(config)
            self.parsers[name] = parser
            parser.initialize()
            self.parser_classes[name] = parser_class
""")]
DEMO='''
import sys
from valori.parsers.registry import ParserRegistry
from valori.parsers.text_parser import TextParser
class Bad(TextParser):
    def initialize(self):
        raise RuntimeError("no")
r = ParserRegistry({"parsers": {"text": {}}}); r.initialize()
try:
    r.add_parser("text", Bad, {})
except Exception:
    pass
sys.exit(type(r.get_parser("a.txt")) is not TextParser)
'''
