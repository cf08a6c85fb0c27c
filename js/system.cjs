module.exports = require('./programs.cjs').system;
