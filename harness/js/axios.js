// Stands in for the package axios: requests over HTTP, answers in JSON.
const http = require('http')
const request = (method, url, data, config = {}) =>
  new Promise((resolve, reject) => {
    const body = data === undefined ? undefined : Buffer.from(JSON.stringify(data))
    const headers = Object.assign({ Accept: 'application/json, text/plain, */*', 'Content-Type': 'application/json' }, config.headers)
    if (body) headers['Content-Length'] = body.length
    else delete headers['Content-Type']
    const full = config.baseURL ? config.baseURL.replace(/\/+$/, '') + (url ? '/' + url.replace(/^\/+/, '') : '') : url
    const q = http.request(full, { method, headers, agent: false }, res => {
      const parts = []
      res.on('data', d => parts.push(d))
      res.on('error', reject)
      res.on('aborted', () => reject(new Error('aborted')))
      res.on('end', () => {
        let text = Buffer.concat(parts).toString('utf8')
        if (text.charCodeAt(0) === 0xfeff) text = text.slice(1)
        let parsed = text
        try {
          parsed = JSON.parse(text)
        } catch (e) {
          // left as it is
        }
        const answer = { status: res.statusCode, statusText: res.statusMessage, headers: res.headers, data: parsed, config }
        if (res.statusCode >= 200 && res.statusCode < 300) return resolve(answer)
        const err = new Error('Request failed with status code ' + res.statusCode)
        err.response = answer
        reject(err)
      })
    })
    q.on('error', reject)
    if (config.timeout) q.setTimeout(config.timeout, () => q.destroy(new Error('timeout of ' + config.timeout + 'ms exceeded')))
    q.end(body)
  })
const create = (base = {}) => {
  const merge = c => Object.assign({}, base, c, { headers: Object.assign({}, base.headers, c && c.headers) })
  return {
    get: (url, c) => request('GET', url, undefined, merge(c)),
    delete: (url, c) => request('DELETE', url, undefined, merge(c)),
    post: (url, data, c) => request('POST', url, data, merge(c)),
    put: (url, data, c) => request('PUT', url, data, merge(c)),
  }
}
module.exports = Object.assign(create(), { create })
module.exports.default = module.exports
module.exports.__esModule = true
