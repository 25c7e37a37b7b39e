package listener

import (
	"testing"

	"verif/harness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }
