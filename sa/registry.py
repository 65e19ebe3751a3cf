"""The properties and how each is decided."""
import props_ast
import props_data
import props_estree
import props_joker
import props_parse
import props_unjson

CHECKS = {}
LEVELS = {}
for m in (props_joker, props_data, props_unjson, props_ast, props_parse, props_estree):
    CHECKS.update(m.CHECKS)
