package model

type Kind uint8

//json:json
type Obj struct {
	K Kind `json:"k"`
}
