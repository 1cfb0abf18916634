// Behaviour-preserving rewrites of JavaScript sources (development aid): refjs.js <transform> <in> <out> [name regex]
'use strict'
const M = '/opt/veriftools/node/node_modules/@babel/'
const fs = require('fs')
const { parse } = require(M + 'parser')
const traverse = require(M + 'traverse').default
const generate = require(M + 'generator').default
const t = require(M + 'types')
let n = 0
const fresh = (p) => `${p}${++n}_`
const neg = (e) => {
  if (t.isUnaryExpression(e, { operator: '!' })) return e.argument
  const inv = { '===': '!==', '!==': '===', '==': '!=', '!=': '==' }
  if (t.isBinaryExpression(e) && inv[e.operator]) return t.binaryExpression(inv[e.operator], e.left, e.right)
  return t.unaryExpression('!', e)
}
const block = (s) => t.isBlockStatement(s) ? s : t.blockStatement([s])
const simple = (e) => t.isIdentifier(e) || t.isLiteral(e) && !t.isTemplateLiteral(e) || t.isThisExpression(e)
const fnish = (e) => t.isFunction(e) || t.isClass(e)
const ends = (s) => t.isReturnStatement(s) || t.isThrowStatement(s) || t.isContinueStatement(s) || t.isBreakStatement(s) || (t.isBlockStatement(s) && s.body.length > 0 && ends(s.body[s.body.length - 1]))
const decl = (v, e) => t.variableDeclaration('const', [t.variableDeclarator(t.identifier(v), e)])
const inList = (p) => p.inList && (p.listKey === 'body' || p.listKey === 'consequent')
function exprHelper (p, key) {
  const f = p.getFunctionParent()
  const e = p.get(key)
  if (!f || p.node.helped_) return
  let bad = false
  let aw = false
  const free = new Set()
  const look = (q) => {
    const name = q.node.name
    if (name === 'require') { bad = true; return }
    const bd = q.scope.getBinding(name)
    if (!bd) { if (name === 'arguments') bad = true; return }
    if (bd.scope.getProgramParent() === bd.scope) return
    if (bd.scope.path === e || bd.scope.path.isDescendant(e)) return
    if (!bd.constant) bad = true
    free.add(name)
  }
  const v = { ReferencedIdentifier: look, ThisExpression () { bad = true }, Super () { bad = true }, YieldExpression () { bad = true }, FunctionExpression () { bad = true }, ArrowFunctionExpression () { bad = true }, AwaitExpression (q) { if (q.getFunctionParent() === f) aw = true } }
  if (e.isReferencedIdentifier()) return
  e.traverse(v)
  if (e.isAwaitExpression()) aw = true
  if (e.isThisExpression() || bad) return
  p.node.helped_ = true
  const h = fresh('helper')
  const args = [...free].map((x) => t.identifier(x))
  const fn = t.functionDeclaration(t.identifier(h), args, t.blockStatement([t.returnStatement(p.node[key])]), false, aw)
  fn.body.body[0].helped_ = true
  const call = t.callExpression(t.identifier(h), args.map((x) => t.identifier(x.name)))
  p.node[key] = aw ? t.awaitExpression(call) : call
  p.findParent((q) => q.isProgram()).node.body.push(fn)
}
const T = {
  rename_locals: (ok) => ({
    Function (p) {
      if (!ok(p)) return
      for (const [name, b] of Object.entries(p.scope.bindings)) {
        if (['param', 'let', 'const', 'var', 'hoisted'].includes(b.kind) && b.path.scope === p.scope || b.kind === 'param') {
          if (name.endsWith('_v') || name === 'arguments') continue
          p.scope.rename(name, name + '_v')
        }
      }
    },
    BlockStatement (p) {
      const f = p.getFunctionParent()
      if (!f || !ok(f)) return
      for (const name of Object.keys(p.scope.bindings)) if (!name.endsWith('_v')) p.scope.rename(name, name + '_v')
    }
  }),
  invert_if: (ok) => ({ IfStatement: { exit (p) { if (ok(p) && p.node.alternate && !p.node.done_) { p.node.done_ = true; const { test, consequent, alternate } = p.node; p.node.test = neg(test); p.node.consequent = block(alternate); p.node.alternate = block(consequent) } } } }),
  invert_noelse: (ok) => ({ IfStatement: { exit (p) { if (ok(p) && !p.node.alternate && !p.node.done_) { p.node.done_ = true; const { test, consequent } = p.node; p.node.test = neg(test); p.node.alternate = block(consequent); p.node.consequent = t.blockStatement([]) } } } }),
  guard_else: (ok) => ({ BlockStatement: { exit (p) {
    if (!ok(p)) return
    const b = p.node.body
    for (let i = b.length - 2; i >= 0; i--) {
      const s = b[i]
      if (t.isIfStatement(s) && !s.alternate && ends(s.consequent) && !b.slice(i + 1).some((x) => t.isFunctionDeclaration(x))) { s.alternate = t.blockStatement(b.splice(i + 1)) }
    }
  } } }),
  else_flat: (ok) => ({ IfStatement: { exit (p) {
    if (!ok(p) || !inList(p) || !p.node.alternate || !ends(p.node.consequent)) return
    const r = p.node.alternate
    if (t.isBlockStatement(r) && r.body.some((x) => t.isVariableDeclaration(x) || t.isFunctionDeclaration(x))) return
    p.node.alternate = null
    p.insertAfter(t.isBlockStatement(r) ? r.body : [r])
  } } }),
  ret_local: (ok) => ({ ReturnStatement (p) {
    if (!ok(p) || !inList(p) || !p.node.argument || simple(p.node.argument) || fnish(p.node.argument)) return
    const v = fresh('result')
    const e = p.node.argument
    p.node.argument = t.identifier(v)
    p.insertBefore(decl(v, e))
  } }),
  cond_local: (ok) => ({ IfStatement (p) {
    if (!ok(p) || !inList(p) || simple(p.node.test)) return
    const v = fresh('cond')
    const e = p.node.test
    p.node.test = t.identifier(v)
    p.insertBefore(decl(v, e))
  } }),
  arg_local: (ok) => ({ Statement (p) {
    if (!ok(p) || !inList(p)) return
    let c = null
    if (t.isExpressionStatement(p.node)) c = p.node.expression
    else if (t.isReturnStatement(p.node)) c = p.node.argument
    else if (t.isVariableDeclaration(p.node) && p.node.declarations.length === 1) c = p.node.declarations[0].init
    if (t.isAwaitExpression(c)) c = c.argument
    if (!t.isCallExpression(c) && !t.isNewExpression(c)) return
    if (!(t.isIdentifier(c.callee) || (t.isMemberExpression(c.callee) && simple(c.callee.object)))) return
    c.arguments.forEach((a, i) => {
      if (simple(a) || fnish(a) || t.isSpreadElement(a)) return
      const v = fresh('arg')
      c.arguments[i] = t.identifier(v)
      p.insertBefore(decl(v, a))
    })
  } }),
  and_nest: (ok) => ({ IfStatement (p) {
    if (!ok(p) || p.node.alternate || !t.isLogicalExpression(p.node.test, { operator: '&&' })) return
    const { left, right } = p.node.test
    p.node.test = left
    p.node.consequent = t.blockStatement([t.ifStatement(right, p.node.consequent)])
  } }),
  demorgan: (ok) => ({ IfStatement: { exit (p) {
    const e = p.node.test
    if (!ok(p) || !t.isLogicalExpression(e) || e.operator === '??' || p.node.done_) return
    p.node.done_ = true
    p.node.test = t.unaryExpression('!', t.logicalExpression(e.operator === '&&' ? '||' : '&&', neg(e.left), neg(e.right)))
  } } }),
  template: (ok) => ({ TemplateLiteral (p) {
    if (!ok(p) || t.isTaggedTemplateExpression(p.parent) || !p.node.expressions.length) return
    let e = t.stringLiteral(p.node.quasis[0].value.cooked)
    p.node.expressions.forEach((x, i) => { e = t.binaryExpression('+', e, x); if (p.node.quasis[i + 1].value.cooked) e = t.binaryExpression('+', e, t.stringLiteral(p.node.quasis[i + 1].value.cooked)) })
    p.replaceWith(e)
  } }),
  concat: (ok) => ({ BinaryExpression (p) {
    if (!ok(p) || p.node.operator !== '+' || t.isBinaryExpression(p.parent, { operator: '+' })) return
    const parts = []
    const go = (e) => { if (t.isBinaryExpression(e, { operator: '+' })) { go(e.left); parts.push(e.right) } else parts.push(e) }
    go(p.node)
    if (!t.isStringLiteral(parts[0]) && !t.isStringLiteral(parts[1])) return
    const q = ['']
    const xs = []
    for (const x of parts) { if (t.isStringLiteral(x)) q[q.length - 1] += x.value; else { xs.push(x); q.push('') } }
    if (!xs.length) return
    p.replaceWith(t.templateLiteral(q.map((s, i) => t.templateElement({ raw: s.replace(/[\\`$]/g, '\\$&').replace(/\n/g, '\\n').replace(/\r/g, '\\r'), cooked: s }, i === q.length - 1)), xs))
  } }),
  ternary_if: (ok) => ({ VariableDeclaration (p) {
    if (!ok(p) || !inList(p) || p.node.declarations.length !== 1 || !t.isConditionalExpression(p.node.declarations[0].init) || !t.isIdentifier(p.node.declarations[0].id)) return
    const d = p.node.declarations[0]
    const c = d.init
    d.init = null
    p.node.kind = 'let'
    const a = (e) => t.blockStatement([t.expressionStatement(t.assignmentExpression('=', t.identifier(d.id.name), e))])
    p.insertAfter(t.ifStatement(c.test, a(c.consequent), a(c.alternate)))
  } }),
  for_index: (ok) => ({ ForOfStatement (p) {
    if (!ok(p) || p.node.await || !t.isVariableDeclaration(p.node.left)) return
    const i = fresh('i'); const s = fresh('seq')
    const d = p.node.left
    d.declarations[0].init = t.memberExpression(t.identifier(s), t.identifier(i), true)
    const b = block(p.node.body)
    b.body.unshift(d)
    if (!inList(p)) return
    p.replaceWithMultiple([decl(s, t.arrayExpression([t.spreadElement(p.node.right)])),
      t.forStatement(t.variableDeclaration('let', [t.variableDeclarator(t.identifier(i), t.numericLiteral(0))]), t.binaryExpression('<', t.identifier(i), t.memberExpression(t.identifier(s), t.identifier('length'))), t.updateExpression('++', t.identifier(i)), b)])
  } }),
  foreach_of: (ok) => ({ ExpressionStatement (p) {
    const c = p.node.expression
    if (!ok(p) || !t.isCallExpression(c) || !t.isMemberExpression(c.callee) || c.callee.property.name !== 'forEach' || c.arguments.length !== 1) return
    const f = c.arguments[0]
    if (!(t.isArrowFunctionExpression(f) || t.isFunctionExpression(f)) || f.params.length !== 1 || f.async) return
    let bad = false
    p.get('expression.arguments.0').traverse({ ReturnStatement (q) { if (q.getFunctionParent().node === f) bad = true }, ThisExpression () { if (!t.isArrowFunctionExpression(f)) bad = true } })
    if (bad) return
    p.replaceWith(t.forOfStatement(t.variableDeclaration('const', [t.variableDeclarator(f.params[0])]), c.callee.object, block(t.isExpression(f.body) ? t.expressionStatement(f.body) : f.body)))
  } }),
  destructure: (ok) => ({ VariableDeclaration (p) {
    if (!ok(p) && p.getFunctionParent()) return
    if (!inList(p) || p.node.declarations.length !== 1 || !t.isObjectPattern(p.node.declarations[0].id)) return
    const d = p.node.declarations[0]
    if (d.id.properties.some((q) => !t.isObjectProperty(q) || q.computed || !t.isIdentifier(q.value))) return
    const v = simple(d.init) && t.isIdentifier(d.init) ? d.init.name : fresh('obj')
    const out = v === d.init.name ? [] : [decl(v, d.init)]
    for (const q of d.id.properties) out.push(t.variableDeclaration(p.node.kind, [t.variableDeclarator(q.value, t.memberExpression(t.identifier(v), q.key))]))
    p.replaceWithMultiple(out)
  } }),
  arrow_fn: (ok) => ({ ArrowFunctionExpression: { exit (p) {
    if (!ok(p)) return
    let bad = false
    p.traverse({ ThisExpression () { bad = true }, Super () { bad = true }, Identifier (q) { if (q.node.name === 'arguments') bad = true } })
    if (bad) return
    const f = t.functionExpression(null, p.node.params, t.isExpression(p.node.body) ? t.blockStatement([t.returnStatement(p.node.body)]) : p.node.body, false, p.node.async)
    p.replaceWith(f)
  } } }),
  fn_arrow: (ok) => ({ FunctionDeclaration (p) {
    if (!ok(p) || !p.getFunctionParent() || p.node.generator || !inList(p)) return
    let bad = false
    p.traverse({ ThisExpression () { bad = true }, Identifier (q) { if (q.node.name === 'arguments') bad = true } })
    if (bad) return
    const b = p.parentPath.node.body
    if (!Array.isArray(b)) return
    const i = b.indexOf(p.node)
    b.splice(i, 1)
    b.unshift(decl(p.node.id.name, t.arrowFunctionExpression(p.node.params, p.node.body, p.node.async)))
  } }),
  opt_chain: (ok) => ({ OptionalMemberExpression (p) {} }),
  noop: (ok) => ({ Function (p) { if (!ok(p) || !t.isBlockStatement(p.node.body)) return; p.node.body.body.unshift(decl(fresh('unused'), t.identifier('undefined'))) } }),
  swap_eq: (ok) => ({ BinaryExpression (p) { if (!ok(p) || !['===', '!=='].includes(p.node.operator) || p.node.done_) return; p.node.done_ = true; const { left, right } = p.node; p.node.left = right; p.node.right = left } }),
  not_eq: (ok) => ({ BinaryExpression (p) { if (!ok(p) || p.node.operator !== '!==') return; p.replaceWith(t.unaryExpression('!', t.binaryExpression('===', p.node.left, p.node.right))) } }),
  await_local: (ok) => ({ AwaitExpression (p) {
    if (!ok(p) || p.node.done_ || simple(p.node.argument)) return
    const st = p.getStatementParent()
    if (!st || !inList(st) || st.getFunctionParent() !== p.getFunctionParent()) return
    const direct = (t.isExpressionStatement(st.node) && st.node.expression === p.node) || (t.isReturnStatement(st.node) && st.node.argument === p.node) || (t.isVariableDeclaration(st.node) && st.node.declarations.length === 1 && st.node.declarations[0].init === p.node)
    if (!direct) return
    p.node.done_ = true
    const v = fresh('pending')
    const e = p.node.argument
    p.node.argument = t.identifier(v)
    st.insertBefore(decl(v, e))
  } }),
  wrap: (ok) => ({ FunctionDeclaration (p) {
    if (!ok(p) || p.node.done_ || p.node.generator || !t.isProgram(p.parent) || p.node.id.name.endsWith('_impl')) return
    if (p.node.params.some((x) => !t.isIdentifier(x))) return
    let bad = false
    p.traverse({ ThisExpression () { bad = true }, Identifier (q) { if (q.node.name === 'arguments') bad = true } })
    if (bad) return
    p.node.done_ = true
    const impl = t.functionDeclaration(t.identifier(p.node.id.name + '_impl'), p.node.params.map((x) => t.identifier(x.name)), p.node.body, false, p.node.async)
    impl.done_ = true
    const call = t.callExpression(t.identifier(impl.id.name), p.node.params.map((x) => t.identifier(x.name)))
    p.node.body = t.blockStatement([t.returnStatement(call)])
    p.insertBefore(impl)
  } }),
  // then-blocks without declarations leaking, control flow -> module level helper
  extract: (ok) => ({ IfStatement (p) {
    if (!ok(p) || !t.isBlockStatement(p.node.consequent) || p.node.done_) return
    const b = p.get('consequent')
    const f = p.getFunctionParent()
    if (!f) return
    let bad = false
    let aw = false
    b.traverse({
      ReturnStatement (q) { if (q.getFunctionParent() === f) bad = true },
      BreakStatement () { bad = true },
      ContinueStatement () { bad = true },
      ThisExpression () { bad = true },
      FunctionDeclaration () { bad = true },
      AwaitExpression (q) { if (q.getFunctionParent() === f) aw = true },
      YieldExpression () { bad = true }
    })
    const free = new Set()
    const look = (q) => {
      const name = q.node.name
      const bd = q.scope.getBinding(name)
      if (!bd) { if (name === 'arguments') bad = true; return }
      if (bd.scope.getProgramParent() === bd.scope) return
      let s = bd.scope
      let inside = false
      while (s) { if (s.path === b || s.path.isDescendant(b)) { inside = true; break } s = s.parent }
      if (inside) return
      if (!bd.constant) bad = true
      free.add(name)
    }
    b.traverse({ ReferencedIdentifier: look,
      AssignmentExpression (q) { for (const name of Object.keys(t.getBindingIdentifiers(q.node.left))) { const bd = q.scope.getBinding(name); if (bd && !(bd.scope.path === b || bd.scope.path.isDescendant(b))) bad = true } },
      UpdateExpression (q) { if (t.isIdentifier(q.node.argument)) { const bd = q.scope.getBinding(q.node.argument.name); if (bd && !(bd.scope.path === b || bd.scope.path.isDescendant(b))) bad = true } } })
    if (bad || !b.node.body.length) return
    if (b.node.body.some((x) => t.isThrowStatement(x))) return
    p.node.done_ = true
    const h = fresh('helper')
    const args = [...free].map((x) => t.identifier(x))
    const fn = t.functionDeclaration(t.identifier(h), args, t.blockStatement(b.node.body), false, aw)
    const call = t.callExpression(t.identifier(h), args.map((x) => t.identifier(x.name)))
    p.node.consequent = t.blockStatement([t.expressionStatement(aw ? t.awaitExpression(call) : call)])
    p.findParent((q) => q.isProgram()).node.body.push(fn)
  } }),
  cond_helper: (ok) => ({ IfStatement (p) { if (ok(p) && !simple(p.node.test)) exprHelper(p, 'test') } }),
  val_helper: (ok) => ({
    VariableDeclarator (p) { if (ok(p) && p.node.init && !simple(p.node.init) && !fnish(p.node.init)) exprHelper(p, 'init') },
    ReturnStatement (p) { if (ok(p) && p.node.argument && !simple(p.node.argument) && !fnish(p.node.argument)) exprHelper(p, 'argument') }
  }),
  for_foreach: (ok) => ({ ForOfStatement (p) {
    if (!ok(p) || p.node.await || !t.isVariableDeclaration(p.node.left)) return
    let bad = false
    p.get('body').traverse({ ReturnStatement () { bad = true }, BreakStatement () { bad = true }, ContinueStatement () { bad = true }, AwaitExpression () { bad = true }, YieldExpression () { bad = true } })
    if (bad) return
    p.replaceWith(t.expressionStatement(t.callExpression(t.memberExpression(t.arrayExpression([t.spreadElement(p.node.right)]), t.identifier('forEach')), [t.arrowFunctionExpression([p.node.left.declarations[0].id], block(p.node.body))])))
  } }),
  // parse()-> member call through local: const x = require(..).y kept; object shorthand expanded
  shorthand: (ok) => ({ ObjectProperty (p) { if (p.node.shorthand && t.isObjectExpression(p.parent)) p.node.shorthand = false } }),
  tail_guard: (ok) => ({ Function (p) {
    if (!ok(p) || !t.isBlockStatement(p.node.body)) return
    const b = p.node.body.body
    const s = b[b.length - 1]
    if (t.isIfStatement(s) && !s.alternate && t.isBlockStatement(s.consequent) && s.consequent.body.length > 1 && !s.consequent.body.some((x) => t.isFunctionDeclaration(x))) {
      b.splice(b.length - 1, 1, t.ifStatement(neg(s.test), t.returnStatement()), s.consequent)
    }
  } }),
  inline_single: (ok) => ({ VariableDeclarator (p) {
    if (!ok(p) || !t.isIdentifier(p.node.id) || !p.node.init || p.parent.kind !== 'const' || !inList(p.parentPath) || p.parent.declarations.length !== 1) return
    const bd = p.scope.getBinding(p.node.id.name)
    if (!bd || bd.referencePaths.length !== 1 || fnish(p.node.init)) return
    const r = bd.referencePaths[0]
    const next = p.parentPath.getNextSibling()
    if (!next.node || !r.isDescendant(next) || r.getFunctionParent() !== p.getFunctionParent()) return
    if (t.isObjectProperty(r.parent) && r.parent.shorthand) return
    const st = next.node
    const e = t.isExpressionStatement(st) ? st.expression : t.isReturnStatement(st) ? st.argument : t.isVariableDeclaration(st) && st.declarations.length === 1 ? st.declarations[0].init : null
    let x = e
    if (t.isAwaitExpression(x)) x = x.argument
    const first = x === r.node || (t.isCallExpression(x) && ((t.isMemberExpression(x.callee) && x.callee.object === r.node) || (t.isIdentifier(x.callee) && x.arguments[0] === r.node)))
    if (!first) return
    r.replaceWith(p.node.init)
    p.parentPath.remove()
  } })
}
if (process.argv[2] === '--list') { console.log(Object.keys(T).filter((x) => x !== 'opt_chain').join('\n')); process.exit() }
const [, , name, inf, outf, rx] = process.argv
const src = fs.readFileSync(inf, 'utf8')
const shebang = src.startsWith('#!')
const mk = (f) => {
  const ast = parse(src, { sourceType: 'script', allowReturnOutsideFunction: true })
  const ok = (p) => {
    const re = new RegExp(rx || '')
    let q = p.isFunction && p.isFunction() ? p : p.getFunctionParent()
    if (!rx) return true
    while (q) {
      const id = q.node.id || q.node.key || (t.isVariableDeclarator(q.parent) && q.parent.id) || null
      if (id && re.test(id.name || '')) return true
      q = q.getFunctionParent()
    }
    return false
  }
  if (f) traverse(ast, T[name](ok))
  return generate(ast, { comments: true }).code + '\n'
}
const a = mk(false); const b = mk(true)
if (a !== b) { fs.writeFileSync(outf, b); console.log('changed') }
void shebang
