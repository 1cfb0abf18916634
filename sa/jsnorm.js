// Normal form of an ESTree before it is lowered: rewrites that keep the meaning of the program.
//  - an indexed loop over an array becomes for-of
//  - `let v; if (c) v = a; else v = b` becomes `let v = c ? a : b`
//  - a constant used once, in the head expression of the next statement, is put back where it is used
//  - an object or array literal bound to a constant used once in a later statement of the block is put back
'use strict'
const isNode = (x) => x && typeof x === 'object' && typeof x.type === 'string'
const FN = new Set(['FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression'])
const isFn = (n) => FN.has(n.type)
const kids = (n) => {
  const out = []
  for (const k of Object.keys(n)) {
    if (k === 'loc' || k === 'type') continue
    const v = n[k]
    if (Array.isArray(v)) { for (const x of v) if (isNode(x)) out.push(x) } else if (isNode(v)) out.push(v)
  }
  return out
}
// identifiers that name a variable (not property names)
function * names (n, parent) {
  if (n.type === 'Identifier') { yield n; return }
  for (const k of Object.keys(n)) {
    if (k === 'loc') continue
    if (n.type === 'MemberExpression' && k === 'property' && !n.computed) continue
    if ((n.type === 'Property' || n.type === 'MethodDefinition' || n.type === 'PropertyDefinition') && k === 'key' && !n.computed) continue
    if (n.type === 'LabeledStatement' && k === 'label') continue
    const v = n[k]
    if (Array.isArray(v)) { for (const x of v) if (isNode(x)) yield * names(x, n) } else if (isNode(v)) yield * names(v, n)
  }
}
const count = (root, name) => { let c = 0; for (const x of names(root)) if (x.name === name) c++; return c }
const some = (n, p) => p(n) || (!isFn(n) && kids(n).some((x) => some(x, p)))
const EFFECT = new Set(['CallExpression', 'NewExpression', 'AwaitExpression', 'AssignmentExpression', 'UpdateExpression', 'YieldExpression', 'TaggedTemplateExpression', 'ImportExpression'])
const pure = (n) => isFn(n) ? true : !EFFECT.has(n.type) && !(n.type === 'UnaryExpression' && n.operator === 'delete') && kids(n).every(pure)

// replace the identifier node `id` below n by expression e (identity), true when done
function replace (n, id, e) {
  for (const k of Object.keys(n)) {
    if (k === 'loc') continue
    const v = n[k]
    if (Array.isArray(v)) {
      for (let i = 0; i < v.length; i++) {
        if (v[i] === id) { v[i] = e; return true }
        if (isNode(v[i]) && replace(v[i], id, e)) return true
      }
    } else if (v === id) {
      if (n.type === 'Property' && n.shorthand) n.shorthand = false
      if (n.type === 'Property' && k === 'key' && !n.computed) continue
      n[k] = e
      return true
    } else if (isNode(v) && replace(v, id, e)) return true
  }
  return false
}

const head = (s) => {
  switch (s.type) {
    case 'ExpressionStatement': return s.expression
    case 'ReturnStatement': case 'ThrowStatement': return s.argument
    case 'VariableDeclaration': return s.declarations.length === 1 ? s.declarations[0].init : null
    case 'IfStatement': return s.test
    case 'ForOfStatement': return s.await ? null : s.right
    case 'SwitchStatement': return s.discriminant
  }
  return null
}

// state of the walk in evaluation order up to `name`: {found, impure (something before has effects), cond, inFn}
function order (e, name) {
  const st = { found: null, impure: false, cond: false, inFn: false, multi: false }
  const go = (n, cond, inFn) => {
    if (!n || st.found) return
    if (n.type === 'Identifier') { if (n.name === name) { st.found = n; st.cond = cond; st.inFn = inFn } return }
    if (isFn(n)) { for (const k of kids(n)) go(k, true, true); return }
    switch (n.type) {
      case 'LogicalExpression': go(n.left, cond, inFn); go(n.right, true, inFn); return
      case 'ConditionalExpression': go(n.test, cond, inFn); go(n.consequent, true, inFn); go(n.alternate, true, inFn); return
      case 'ChainExpression': go(n.expression, cond, inFn); return
      case 'MemberExpression': go(n.object, cond, inFn); if (n.computed) go(n.property, cond || n.optional, inFn); return
      case 'Property': if (n.computed) go(n.key, cond, inFn); go(n.value, cond, inFn); return
      case 'AssignmentExpression': if (n.left.type !== 'Identifier') go(n.left, cond, inFn); go(n.right, cond, inFn); if (!st.found) st.impure = true; return
      case 'CallExpression': go(n.callee, cond, inFn); for (const a of n.arguments) go(a, cond || n.optional, inFn); if (!st.found) st.impure = true; return
    }
    for (const k of kids(n)) go(k, cond, inFn)
    if (!st.found && EFFECT.has(n.type)) st.impure = true
  }
  go(e, false, false)
  return st
}

function loops (n) {
  for (const k of kids(n)) loops(k)
  for (const key of Object.keys(n)) {
    const v = n[key]
    if (Array.isArray(v)) { v.forEach((x, i) => { if (isNode(x) && x.type === 'ForStatement') v[i] = indexed(x) }) } else if (key !== 'loc' && isNode(v) && v.type === 'ForStatement') n[key] = indexed(v)
  }
}
function indexed (s) {
  const { init, test, update, body } = s
  if (!init || init.type !== 'VariableDeclaration' || init.declarations.length !== 1 || !test || !update) return s
  const d = init.declarations[0]
  if (d.id.type !== 'Identifier' || !d.init || d.init.value !== 0) return s
  const i = d.id.name
  if (test.type !== 'BinaryExpression' || test.operator !== '<' || test.left.name !== i || test.right.type !== 'MemberExpression' || test.right.computed || test.right.property.name !== 'length' || test.right.object.type !== 'Identifier') return s
  const arr = test.right.object.name
  const up = (update.type === 'UpdateExpression' && update.operator === '++' && update.argument.name === i) || (update.type === 'AssignmentExpression' && update.operator === '+=' && update.left.name === i && update.right.value === 1)
  if (!up) return s
  // every use of i is arr[i]; arr is used only so
  const elems = []
  let other = false
  const go = (n, parent, k) => {
    if (n.type === 'MemberExpression' && n.computed && n.object.type === 'Identifier' && n.object.name === arr && n.property.type === 'Identifier' && n.property.name === i) {
      if (parent.type === 'AssignmentExpression' && k === 'left') other = true
      elems.push(n)
      return
    }
    if (n.type === 'Identifier' && (n.name === i || n.name === arr)) {
      if (!(parent.type === 'MemberExpression' && k === 'property' && !parent.computed) && !(parent.type === 'Property' && k === 'key' && !parent.computed)) other = true
      return
    }
    for (const key of Object.keys(n)) {
      if (key === 'loc') continue
      const v = n[key]
      if (Array.isArray(v)) { for (const x of v) if (isNode(x)) go(x, n, key) } else if (isNode(v)) go(v, n, key)
    }
  }
  go(body, s, 'body')
  if (other || !elems.length) return s
  let target = { type: 'Identifier', name: i + '$elem', loc: s.loc }
  if (body.type === 'BlockStatement' && body.body.length && body.body[0].type === 'VariableDeclaration' && body.body[0].declarations.length === 1 && elems.length === 1 && body.body[0].declarations[0].init === elems[0]) {
    target = body.body[0].declarations[0].id
    body.body.shift()
  } else {
    for (const e of elems) {
      for (const k of Object.keys(e)) if (k !== 'loc') delete e[k]
      e.type = 'Identifier'
      e.name = target.name
    }
  }
  return { type: 'ForOfStatement', await: false, left: { type: 'VariableDeclaration', kind: 'const', declarations: [{ type: 'VariableDeclarator', id: target, init: null, loc: s.loc }], loc: s.loc }, right: test.right.object, body, loc: s.loc }
}

const one = (s) => s && s.type === 'BlockStatement' && s.body.length === 1 ? s.body[0] : s
const assigned = (s, name) => { s = one(s); return s && s.type === 'ExpressionStatement' && s.expression.type === 'AssignmentExpression' && s.expression.operator === '=' && s.expression.left.type === 'Identifier' && s.expression.left.name === name ? s.expression.right : null }

function block (list, root) {
  for (let i = 0; i + 1 < list.length; i++) {
    const s = list[i]; const t = list[i + 1]
    if (s.type === 'VariableDeclaration' && s.declarations.length === 1 && !s.declarations[0].init && s.declarations[0].id.type === 'Identifier' && t.type === 'IfStatement' && t.alternate) {
      const v = s.declarations[0].id.name
      const a = assigned(t.consequent, v); const b = assigned(t.alternate, v)
      if (a && b && ![...names(t.test)].some((x) => x.name === v)) {
        s.declarations[0].init = { type: 'ConditionalExpression', test: t.test, consequent: a, alternate: b, loc: t.loc }
        if (count(root, v) - 2 >= 0 && !reassigned(root, v, s)) s.kind = 'const'
        list.splice(i + 1, 1)
      }
    }
  }
  for (let i = list.length - 2; i >= 0; i--) {
    const s = list[i]
    if (s.type !== 'VariableDeclaration' || s.kind !== 'const' || s.declarations.length !== 1) continue
    const d = s.declarations[0]
    if (d.id.type !== 'Identifier' || !d.init || isFn(d.init) || d.init.type === 'ClassExpression') continue
    if (some(d.init, (x) => x.type === 'CallExpression' && x.callee.type === 'Identifier' && x.callee.name === 'require')) continue
    if (count(root, d.id.name) !== 2) continue
    const h = head(list[i + 1])
    if (h) {
      const st = order(h, d.id.name)
      if (st.found && !st.inFn && (pure(d.init) ? !st.impure : !st.impure && !st.cond)) {
        if (replace(list[i + 1], st.found, d.init)) { list.splice(i, 1); continue }
      }
    }
    if (d.init.type === 'ObjectExpression' || d.init.type === 'ArrayExpression') {
      let j = i + 1
      while (j < list.length && list[j].type === 'VariableDeclaration' && ![...names(list[j])].some((x) => x.name === d.id.name)) j++
      const u = list[j]
      if (!u || !['ExpressionStatement', 'ReturnStatement', 'VariableDeclaration', 'IfStatement', 'TryStatement'].includes(u.type)) continue
      const use = [...names(u)].find((x) => x.name === d.id.name)
      let fn = false
      const look = (n, inF) => { if (n === use) fn = inF; for (const k of kids(n)) look(k, inF || isFn(n) || /^(For|While|DoWhile)/.test(n.type)) }
      look(u, false)
      if (use && !fn && (u.type !== 'TryStatement' || pure(d.init)) && replace(u, use, d.init)) list.splice(i, 1)
    }
  }
}
function reassigned (root, v, declStmt) {
  let r = false
  const go = (n) => {
    if (n.type === 'AssignmentExpression' && n.left.type === 'Identifier' && n.left.name === v) r = true
    if (n.type === 'UpdateExpression' && n.argument.name === v) r = true
    kids(n).forEach(go)
  }
  go(root)
  return r
}
function copies (n) {
  for (const k of kids(n)) copies(k)
  if (n.type === 'ForOfStatement' && n.right.type === 'ArrayExpression' && n.right.elements.length === 1 && n.right.elements[0] && n.right.elements[0].type === 'SpreadElement') n.right = n.right.elements[0].argument
}
function blocks (n, root) {
  const r = isFn(n) ? n : root
  for (const k of kids(n)) blocks(k, r)
  if ((n.type === 'BlockStatement' || n.type === 'Program') && Array.isArray(n.body)) block(n.body, r)
  if (n.type === 'SwitchCase') block(n.consequent, r)
}
module.exports = (ast) => {
  loops(ast)
  blocks(ast, ast)
  copies(ast)
  blocks(ast, ast)
  return ast
}
