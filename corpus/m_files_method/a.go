package files

//json:json
type T1 struct {
	A Sub     `json:"a"`
	B *Sub    `json:"b"`
	L []Sub   `json:"l"`
	P []*Sub  `json:"p"`
	M map[string]Sub `json:"m"`
	S Str     `json:"s"`
	W Words   `json:"w"`
}
