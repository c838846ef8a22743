package vxm

//vx:redirect github.com/drhodes/golorem.Word
func loremWord(min, max int) string { return "lorem" }
