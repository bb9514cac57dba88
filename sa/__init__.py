"""Static analyser for pdfsyntax: abstract interpretation over the syntax tree (nothing is executed)."""
