package files

//json:json
type T1 struct {
	Base `json:",inline"`
}
