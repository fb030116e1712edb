package props

import (
	"testing"

	"verif/harness/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }
