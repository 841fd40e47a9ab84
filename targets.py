"""What there is to build, and which of it decides each property"""

TARGETS = {
    't01': {'src': ['props/t01.cc'], 'lib': 'core'},
    't02': {'src': ['props/t02.cc'], 'lib': 'core'},
    't03': {'src': ['props/t03.cc'], 'lib': 'core'},
    't04': {'src': ['props/t04.cc'], 'lib': 'core'},
    'c01': {'src': ['props/c01.cc'], 'lib': 'core'},
    'c02': {'src': ['props/c02.cc'], 'lib': 'core'},
    'c03': {'src': ['props/c03.cc'], 'lib': 'core'},
    'g01': {'src': ['props/g01.cc'], 'lib': 'core'},
    'g02': {'src': ['props/g02.cc'], 'lib': 'core'},
    'g03': {'src': ['props/g03.cc'], 'lib': 'core'},
    'g04': {'src': ['props/g04.cc'], 'lib': 'core'},
    'd01': {'src': ['props/d01.cc'], 'lib': 'core'},
    'd02': {'src': ['props/d02.cc'], 'lib': 'core'},
    'd03': {'src': ['props/d03.cc'], 'lib': 'core'},
    'f01': {'src': ['props/f01.cc'], 'lib': 'core'},
    'f02': {'src': ['props/f02.cc'], 'lib': 'core'},
    'f03': {'src': ['props/f03.cc'], 'lib': 'core'},
    'b01': {'src': ['props/b01.cc'], 'lib': 'core'},
    'b02': {'src': ['props/b02.cc'], 'lib': 'core'},
    'n01': {'src': ['props/n01.cc'], 'lib': 'core'},
    'n02': {'src': ['props/n02.cc'], 'lib': 'core'},
    'k01': {'src': ['props/k01.cc'], 'lib': ['locale_convert', 'raw_convert', 'exceptions', 'shim/cxml.cc']},
    'k02': {'src': ['props/k02.cc'], 'lib': ['dcp_time', 'locale_convert', 'raw_convert', 'exceptions', 'types', 'shim/cxml.cc']},
    'k03': {'src': ['props/k03.cc'], 'lib': 'full'},
    'k04': {'src': ['props/k04.cc'], 'lib': 'full'},
    'k05': {'src': ['props/k05.cc'], 'lib': 'full'},
    'u01': {'src': ['props/u01.cc'], 'lib': 'full'},
    'm01': {'src': ['props/m01.cc'], 'lib': 'full'},
    'm02': {'src': ['props/m02.cc'], 'lib': 'full'},
    'm03': {'src': ['props/m03.cc'], 'lib': 'full'},
    'x02': {'src': ['props/x02.cc'], 'lib': 'full'},
    'x03': {'src': ['props/x03.cc'], 'lib': 'full'},
    's01': {'src': ['props/s01.cc'], 'lib': 'full'},
    's02': {'src': ['props/s02.cc'], 'lib': 'full'},
    's03': {'src': ['props/s03.cc'], 'lib': 'full'},
    'e01': {'src': ['props/e01.cc'], 'lib': 'full'},
    'e02': {'src': ['props/e02.cc'], 'lib': 'full'},
    'e03': {'src': ['props/e03.cc'], 'lib': 'full'},
    'v02': {'src': ['props/v02.cc'], 'lib': 'full'},
    'v03': {'src': ['props/v03.cc'], 'lib': 'full'},
    'k06': {'src': ['props/k06.cc'], 'lib': 'full'},
    'z01': {'src': ['props/z01.cc'], 'lib': 'full'},
    'i02': {'src': ['props/i02.cc'], 'lib': 'full'},
    'i01': {'src': ['props/i01.cc'], 'lib': 'full'},
    'r01': {'src': ['props/r01.cc'], 'lib': 'full'},
    'r02': {'src': ['props/r02.cc'], 'lib': 'full'},
    'v04': {'src': ['props/v04.cc'], 'lib': 'full'},
    'v01': {'src': ['props/v01.cc'], 'lib': 'full', 'variant': 'plain'},
    'x01': {'src': ['props/x01.cc'], 'lib': 'full'},
    'g03t': {'src': ['props/g03t.cc'], 'lib': 'core', 'variant': 'tsan'},
}

GENERAL_RULE = 'A case is non-trivial if it meets the rule of the facet that generated it; distinct ones are counted by the text of the generated input.'

# Each property has a program of the same name, and some have more
CHECKS = {n.upper(): {'targets': [n]} for n in TARGETS if n != 'g03t'}
CHECKS['G03']['targets'].append('g03t')

for c in CHECKS.values():
    c.setdefault('rule', GENERAL_RULE)
