module.exports = require('./programs.cjs').token;
