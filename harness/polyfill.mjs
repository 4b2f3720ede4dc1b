// Web APIs that the code uses and this Node version lacks.
if (typeof Uint8Array.fromBase64 !== 'function') {
  Uint8Array.fromBase64 = (s) => {
    if (typeof s !== 'string') throw new TypeError('not a string')
    const t = s.replace(/[\t\n\f\r ]/g, '')
    if (!/^[A-Za-z0-9+/]*={0,2}$/.test(t) || (t.includes('=') && t.length % 4 !== 0) || t.replace(/=+$/, '').length % 4 === 1)
      throw new SyntaxError('not base64')
    return new Uint8Array(Buffer.from(t, 'base64'))
  }
}
if (typeof globalThis.FileReader === 'undefined') {
  globalThis.FileReader = class {
    readAsDataURL(blob) {
      blob.arrayBuffer().then((buf) => {
        this.result = `data:${blob.type || 'application/octet-stream'};base64,${Buffer.from(buf).toString('base64')}`
        this.onload?.({ target: this })
        this.onloadend?.({ target: this })
      }, (e) => { this.error = e; this.onerror?.({ target: this }) })
    }
  }
}
