module verifharness

go 1.18

require github.com/smartbch/moeingads v0.0.0

require (
	github.com/dterei/gotsc v0.0.0-20160722215413-e78f872945c6 // indirect
	github.com/minio/sha256-simd v0.1.1 // indirect
	github.com/mmcloughlin/meow v0.0.0-20181112033425-871e50784daf // indirect
	github.com/tecbot/gorocksdb v0.0.0-20191217155057-f0fad39f321c // indirect
)

replace github.com/smartbch/moeingads => /repo
