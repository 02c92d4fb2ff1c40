package store

type counter_ struct{}

func (*counter_) Add(float64) {}
func (*counter_) Set(float64) {}
