package d_nmap_nint

//json:json
type D map[NStr]NInt

type NStr string

type NInt int
