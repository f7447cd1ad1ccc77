// every header on its own and together
// tool: headers
