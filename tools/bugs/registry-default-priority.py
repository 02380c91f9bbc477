PROPERTY='P23'
NEEDS='a custom parser for a format that a built-in parser also supports'
BREAKS='parsers are ordered by priority only among those that have one: a custom parser that was registered is tried before all others'
EDITS=[('src/valori/parsers/registry.py',"""                priority = self.parser_priorities.get(parser_name, 0)
""","""                priority = self.parser_priorities.get(
                    parser_name, len(self.parser_priorities) + 1
                )
""")]
DEMO='''
import sys
from valori.parsers.registry import ParserRegistry
from valori.parsers.text_parser import TextParser
class Mine(TextParser):
    pass
r = ParserRegistry({"parsers": {"text": {}}}); r.initialize()
r.add_parser("mine", Mine, {})
sys.exit(type(r.get_parser("a.txt")) is not TextParser)
'''
