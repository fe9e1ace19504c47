package base

var X = 1

type Y struct {
	One string `json:"one"`
}
