module.exports = require('./programs.cjs').token22;
