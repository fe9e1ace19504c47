package time

//json:json
type Time struct {
	Sec int64 `json:"sec"`
}
