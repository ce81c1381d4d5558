package generator

import (
	"testing"
)

func TestVerifC22(t *testing.T) {
	verifRender(verifStart(t), 20000, func(b *verifBook) interface{} { return b.content(3) })
}
