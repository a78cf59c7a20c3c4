package main

import (
	"go/token"
)

const (
	geqTok = token.GEQ
	subTok = token.SUB
	andTok = token.AND
)

