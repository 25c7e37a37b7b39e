package bus

import (
	"testing"

	"verif/harness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }
