package k

type Key string

type In struct {
	M map[Key]int `json:"m"`
	N map[string]Key `json:"n"`
	L []Key `json:"l"`
	P *Key `json:"p,omitempty"`
}
