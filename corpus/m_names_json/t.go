package names

//json:strict
type T1 struct {
	A string `json:"foo-bar"`
	B string `json:"foo.bar"`
	C string `json:"foo bar"`
	D string `json:"$ref,omitempty"`
	E int    `json:"@type"`
	F int    `json:"имя"`
	G int    `json:"名前,omitempty"`
	H bool   `json:"1"`
	I bool   `json:"type"`
	J *int   `json:"func"`
	K *int   `json:"a/b"`
}

//json:strict
type T2 struct {
	A int    `json:"id"`
	B string `json:"ID"`
	C bool   `json:"Id"`
	D int    `json:"i"`
	E int    `json:"idd"`
	F []int  `json:"id_list"`
	G map[string]int `json:"iD"`
}

//json:json
type T3 struct {
	A int    `json:"a" xml:"zzz" default:"7"`
	B string `xml:"b,attr" json:"b,omitempty"`
	C int    `yaml:"json:\"x\"" json:"c"`
	D int    `db:"d" json:"dd"`
	E string `json:"-"`
	F []int  `json:"-"`
	G int    `json:"g"`
}
