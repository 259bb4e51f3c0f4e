module gosusim

go 1.23

require github.com/Wieku/gosu-pp v0.0.0

require golang.org/x/text v0.3.7 // indirect

replace github.com/Wieku/gosu-pp => /repo
