package worlds

import "testing"

func TestSim(t *testing.T) { Main(t) }
