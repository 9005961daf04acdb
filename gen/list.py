venum('Color', [('Auto', None, 'auto'), ('DarkRed', None, 'dark-red'), ('X', 'x y', 'x y')])
venum('Lvl', [('Low', None, 'LOW'), ('MidHigh', None, 'MID_HIGH'), ('Odd', 'low', 'low')], 'SCREAMING_SNAKE_CASE')
# Every kind of field, with the constraints.
top(Cmd([F('flag', 'bool', short='f', long=True), F('num', 'u8', long=True, default='7'), F('opt', 'Option<u8>', short='o', requires=['flag'], conflicts=['list']),
         F('list', 'Vec<u8>', long=True, delim=','), F('ex', 'u8', long=True, exclusive=True, dt=('4', '', '4')), F('pos', 'Option<String>', required=True)]))
# Subcommands of all shapes, required and optional, nested.
inner = Cmd([F('x', 'Option<u8>', long=True)], sub=('d', True, Sub(('Un', 'un', 'Unit', None))))
top(Cmd([F('v', 'bool', long=True, glob=True)], sub=('c', False, Sub(('One', 'one', 'Unit', None), ('TwoWords', 'two-words', 'New', inner),
    ('Three', 'three', 'Struct', Cmd([F('y', 'Vec<u8>', long=True), F('z', 'String', exclusive=True)]))))))
# Optional values, optional lists; order of declaration mixed.
top(Cmd([F('more', 'Option<String>'), F('color', 'Option<Option<Color>>', long=True, short='c', eq=True), F('inc', 'Option<Vec<String>>', short='I', long='include'),
         F('again', 'Option<OsString>'), F('lvl', 'Option<Option<u8>>', short=True, eq=True, conflicts=['again', 'more'])]))
# Values: equals sign, hyphens, numbers, case, aliases.
top(Cmd([F('long_name', 'Option<String>', long=True, alias=['ln', 'long'], short='l', salias=['L', 'é']), F('case', 'Option<Color>', long=True, icase=True),
         F('hy', 'Option<String>', long=True, short='y', hy=True), F('neg', 'Option<i32>', short='n', neg=True), F('eq', 'String', long='equals', eq=True, vname='X'),
         F('one', 'bool', short='1'), F('r_type', 'Option<String>', long=True)]))
# Positional arguments.
top(Cmd([F('first', 'String'), F('v', 'bool', short='v'), F('second', 'Option<u8>'), F('rest', 'Vec<String>')]))
top(Cmd([F('cmd', 'OsString'), F('args', 'Option<Vec<OsString>>', trailing=True), F('tail', 'Vec<String>', last=True), F('q', 'bool', short='q')]))
top(Cmd([F('files', 'Vec<String>', delim=':', required=True), F('last', 'Option<Vec<String>>', last=True)]))
top(Cmd([F('args', 'Vec<String>', trailing=True), F('o', 'Option<String>', short='o')]))
# Defaults.
top(Cmd([F('a', 'u8', long=True, default='1'), F('b', 'String', long=True, default=''), F('c', 'Option<u8>', long=True, dt=('5', '', '5')), F('d', 'Vec<u8>', long=True, default='1')]))
top(Cmd([F('e', 'Color', long=True, dt=('Color::Auto', '', 'auto')), F('f', 'Option<Vec<u8>>', long=True, default='9'), F('g', 'i32', default='-3'), F('h', 'Vec<u8>', default='8')]))
# Constraints: chains, lists of conflicts, required lists, defaults that do not count.
top(Cmd([F('a', 'bool', short='a', requires=['b', 'c']), F('b', 'bool', short='b', requires=['p']), F('c', 'Option<u8>', short='c', conflicts=['d']), F('d', 'u8', short='d', default='0', conflicts=['e', 'a'], conflicts_all=True),
         F('e', 'Vec<u8>', short='e', required=True), F('p', 'Option<String>', requires=['c']), F('q', 'Vec<String>', conflicts=['a'])]))
top(Cmd([F('a', 'Option<Option<u8>>', long=True, eq=True, required=True, requires=['b']), F('b', 'bool', short='b', exclusive=True), F('c', 'u8', short='c', default='3', requires=['d']), F('d', 'Option<Vec<u8>>', short='d', required=True, exclusive=True)]))
top(Cmd([F('req', 'String', long=True), F('ver', 'bool', long=True, short='V', exclusive=True)], sub=('c', True, Sub(('Go', 'go', 'Unit', None), ('Gone', 'gone', 'Unit', None)))))
top(Cmd([F('only', 'Option<String>', exclusive=True)], sub=('c', True, Sub(('A', 'a', 'Struct', Cmd()), ('Bc', 'bc', 'Struct', Cmd([F('n', 'u8', long=True, default='1'), F('g', 'Option<String>', long=True, glob=True, conflicts=['n'])], sub=('s', False, Sub(('Deep', 'deep', 'New', Cmd([F('pos', 'u8')])), ('Er', 'er', 'Unit', None)))))))))
# Nothing but a subcommand; one field; none.
top(Cmd(sub=('c', False, Sub(('IOTest', 'io-test', 'Unit', None), ('B2b', 'b2b', 'New', Cmd([F('all', 'bool', short=True, long=True, glob=True)])), ('Ice', 'ice', 'Struct', Cmd([F('t', 'Option<u8>', short='t', hide=True, glob=True)], sub=('c', True, Sub(('Again', 'again', 'Unit', None)))))))))
top(Cmd([F('only', 'String')]))
top(Cmd([]))
# Ten fields.
top(Cmd([F(n, 'bool', short=n, long=n + n, conflicts=['j'] if n == 'a' else []) for n in 'abcdefghi'] + [F('j', 'Option<u8>', short='j', exclusive=True)]))
