package writer

import (
	"testing"

	"verif/harness/hz"
)

func TestMain(m *testing.M) {
	makeCerts()
	hz.Main(m)
}
