PROPERTY = 'C28'
NEEDS = 'an expression using a name that is not a key, in a part that Python does not evaluate'
BREAKS = 'unknown names are accepted when the other operand decides'
EDITS = [('zcollection/expression.py', '''                name: variables[name]
                for name in self.code.co_names if name not in self.BUILTINS
            }''', '''                name: variables[name]
                for name in self.code.co_names[:1] if name not in self.BUILTINS
            }
            __locals.update(variables)''')]
DEMO = '''
from zcollection.expression import Expression
try:
    got = Expression('year == 2000 or mnth == 1')({'year': 2000, 'month': 3})
    finish(False, f'unknown name accepted: {got}')
except NameError:
    finish(True)
'''
