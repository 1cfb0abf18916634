// Systematic mutants of a JavaScript file (development aid): prints a JSON list of [line, operator, start, end, replacement].
'use strict'
const M = '/opt/veriftools/node/node_modules/@babel/'
const fs = require('fs')
const { parse } = require(M + 'parser')
const traverse = require(M + 'traverse').default
const src = fs.readFileSync(process.argv[2], 'utf8')
const ast = parse(src, { sourceType: 'script', allowReturnOutsideFunction: true })
const out = []
const txt = (n) => src.slice(n.start, n.end)
const add = (n, op, rep) => out.push([n.loc.start.line, op, n.start, n.end, rep])
const log = (n) => /^(await )?(log|this\.log|this)\.(verbose|silly|info|warn|error|http|addLog|debug)\b/.test(txt(n)) || /^debug\(/.test(txt(n))
traverse(ast, {
  IfStatement (p) { add(p.node.test, 'if-neg', `!(${txt(p.node.test)})`); if (p.node.alternate === null && !log(p.node.consequent)) add(p.node, 'if-drop', ';') },
  ConditionalExpression (p) { add(p.node.test, 'cond-neg', `!(${txt(p.node.test)})`) },
  LogicalExpression (p) {
    const o = p.node.operator
    add(p.node, 'left', txt(p.node.left)); add(p.node, 'right', txt(p.node.right))
    if (o !== '??') add(p.node, 'logic', `(${txt(p.node.left)}) ${o === '&&' ? '||' : '&&'} (${txt(p.node.right)})`)
  },
  ExpressionStatement (p) {
    if (log(p.node) || p.node.directive) return
    add(p.node, 'stmt-drop', ';')
  },
  ReturnStatement (p) { if (p.node.argument) add(p.node, 'ret-undef', 'return undefined') ; else add(p.node, 'ret-drop', ';') },
  ThrowStatement (p) { add(p.node, 'throw-drop', ';') },
  AwaitExpression (p) { add(p.node, 'await-drop', p.parentPath.isExpressionStatement() ? txt(p.node.argument) : `(${txt(p.node.argument)})`) },
  UnaryExpression (p) { if (p.node.operator === '!') add(p.node, 'not-drop', `(${txt(p.node.argument)})`) },
  BinaryExpression (p) {
    const inv = { '===': '!==', '!==': '===', '<': '<=', '>': '>=', '<=': '<', '>=': '>' }
    const o = inv[p.node.operator]
    if (o) add(p.node, 'cmp', `${txt(p.node.left)} ${o} ${txt(p.node.right)}`)
  },
  BooleanLiteral (p) { add(p.node, 'bool', String(!p.node.value)) },
  NumericLiteral (p) { add(p.node, 'num', String(p.node.value + 1)) },
  StringLiteral (p) {
    if (p.parentPath.isCallExpression() && (p.parent.callee.name === 'require' || log(p.parent))) return
    if (p.parentPath.isExpressionStatement() || p.parentPath.isObjectProperty() && p.key === 'key') return
    if (p.findParent((q) => q.isCallExpression() && log(q.node)) || p.findParent((q) => q.isThrowStatement())) return
    add(p.node, 'str', JSON.stringify(p.node.value + 'x'))
  },
  ObjectProperty (p) { if (!p.parentPath.isObjectPattern()) add(p.node, 'prop-drop', '...{}') },
  ArrayExpression (p) { if (p.node.elements.length > 1) p.node.elements.forEach((e, i) => { if (e && i < 8) add(e, 'elem-drop', '...[]') }) },
  CallExpression (p) {
    if (log(p.node)) return
    const a = p.node.arguments
    if (a.length === 2 && a[0].type !== 'StringLiteral' && !/Function/.test(a[1].type)) out.push([p.node.loc.start.line, 'swap', a[0].start, a[1].end, `${txt(a[1])}, ${txt(a[0])}`])
    if (a.length > 1) out.push([p.node.loc.start.line, 'arg-drop', a[a.length - 2].end, a[a.length - 1].end, ''])
  },
  BreakStatement (p) { add(p.node, 'break-drop', ';') },
  ContinueStatement (p) { add(p.node, 'continue-drop', ';') },
  CatchClause (p) { if (p.node.body.body.length) add(p.node.body, 'catch-empty', '{}') },
  RegExpLiteral (p) { if (p.node.pattern.startsWith('^')) add(p.node, 're-open', `/${p.node.pattern.slice(1)}/${p.node.flags}`); if (p.node.pattern.endsWith('$')) add(p.node, 're-end', `/${p.node.pattern.slice(0, -1)}/${p.node.flags}`); if (p.node.flags) add(p.node, 're-flag', `/${p.node.pattern}/`) }
})
console.log(JSON.stringify(out))
