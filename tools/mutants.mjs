// Generates mutants of the code under test: node tools/mutants.mjs REPO FILE... > mutants.jsonl
// Development aid for judging the checks (see DESIGN.md); no check uses it.
import fs from 'node:fs'
import { createRequire } from 'node:module'
import path from 'node:path'

const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript')
const [repo, ...files] = process.argv.slice(2)
for (const file of files) {
  const text = fs.readFileSync(path.join(repo, file), 'utf8')
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true)
  const out = (node, op, replacement) => {
    const start = node.getStart(); const end = node.getEnd()
    if (text.slice(start, end) === replacement) return
    console.log(JSON.stringify({ end, file, line: sf.getLineAndCharacterOfPosition(start).line + 1, op, replacement, start, was: text.slice(start, end).slice(0, 200) }))
  }
  const K = ts.SyntaxKind
  const SWAP = { [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===', [K.EqualsEqualsToken]: '!=', [K.ExclamationEqualsToken]: '==', [K.AmpersandAmpersandToken]: '||', [K.BarBarToken]: '&&', [K.QuestionQuestionToken]: '||', [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>', [K.PlusToken]: '-', [K.MinusToken]: '+', [K.PlusEqualsToken]: '=', [K.QuestionQuestionEqualsToken]: '=' }
  const visit = (n) => {
    if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeNode(n)) return
    if (ts.isBinaryExpression(n)) {
      const s = SWAP[n.operatorToken.kind]
      if (s) out(n.operatorToken, 'operator', s)
      if ([K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken].includes(n.operatorToken.kind) && ['null', 'undefined'].includes(n.right.getText())) out(n, 'truthy', `!!(${n.left.getText()})`)
      if ([K.EqualsEqualsToken, K.EqualsEqualsEqualsToken].includes(n.operatorToken.kind) && ['null', 'undefined'].includes(n.right.getText())) out(n, 'falsy', `!(${n.left.getText()})`)
      if ([K.AmpersandAmpersandToken, K.BarBarToken].includes(n.operatorToken.kind)) { out(n, 'left only', n.left.getText()); out(n, 'right only', n.right.getText()) }
      if (n.operatorToken.kind === K.QuestionQuestionToken) out(n, 'left only', `(${n.left.getText()})!`)
    }
    if (ts.isIfStatement(n)) { out(n.expression, 'if true', 'true as boolean'); out(n.expression, 'if false', 'false as boolean') }
    if (ts.isConditionalExpression(n)) { out(n, 'then', `(${n.whenTrue.getText()})`); out(n, 'else', `(${n.whenFalse.getText()})`) }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) out(n, 'negation', n.operand.getText())
    if (ts.isExpressionStatement(n)) out(n, 'drop statement', ';')
    if (ts.isReturnStatement(n) && !n.expression) out(n, 'drop return', ';')
    if (ts.isAwaitExpression(n)) out(n, 'drop await', `(${n.expression.getText()} as any)`)
    if (ts.isPropertyAssignment(n) && ts.isObjectLiteralExpression(n.parent)) {
      let end = n.getEnd(); if (text[end] === ',') end++
      console.log(JSON.stringify({ end, file, line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, op: 'drop property', replacement: '', start: n.getStart(), was: n.getText().slice(0, 200) }))
    }
    if ((ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n)) && ts.isObjectLiteralExpression(n.parent)) {
      let end = n.getEnd(); if (text[end] === ',') end++
      console.log(JSON.stringify({ end, file, line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, op: 'drop property', replacement: '', start: n.getStart(), was: n.getText().slice(0, 200) }))
    }
    if (ts.isSpreadElement(n) && ts.isArrayLiteralExpression(n.parent)) { let end = n.getEnd(); if (text[end] === ',') end++; console.log(JSON.stringify({ end, file, line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, op: 'drop element', replacement: '', start: n.getStart(), was: n.getText() })) }
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) out(n.questionDotToken, 'no chaining', n.parent && '!.')
    if (ts.isStringLiteral(n) && !ts.isPropertyAssignment(n.parent) && n.text.length > 0) out(n, 'string', `'${n.text}x'`)
    else if (ts.isStringLiteral(n) && ts.isPropertyAssignment(n.parent) && n.parent.initializer === n && n.text.length > 0) out(n, 'string', `'${n.text}x'`)
    if (ts.isNumericLiteral(n)) out(n, 'number', String(Number(n.text) + 1))
    if (n.kind === K.TrueKeyword) out(n, 'boolean', 'false')
    if (n.kind === K.FalseKeyword) out(n, 'boolean', 'true')
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['catch', 'filter', 'finally', 'map', 'reverse', 'slice', 'sort', 'then', 'toLowerCase', 'trim'].includes(n.expression.name.text)) out(n, `drop .${n.expression.name.text}`, n.expression.expression.getText())
    if (ts.isCallExpression(n) && ['structuredClone', 'clean', 'objCamelToSnake'].includes(n.expression.getText())) out(n, 'drop call', n.arguments[0].getText())
    if (ts.isBlock(n) && ts.isCatchClause(n.parent)) out(n, 'empty catch', '{}')
    ts.forEachChild(n, visit)
  }
  visit(sf)
}
