package d_a3_nstr

//json:json
type D [3]NStr

type NStr string
