package props

import (
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Named integers of a user's program.
type (
	NU64 uint64
	NU32 uint32
	NI64 int64
	NI32 int32
)

// Named types of a user's program.
type (
	Tree struct {
		V    uint8
		Kids []Tree
	}
	List struct {
		V    uint16
		Next *List `eosio:"optional"`
	}
	Mixed struct {
		A bool
		B uint8
		C uint16
		D uint32
		E uint64
		F int8
		G int16
		H int32
		I int64
		J float32
		K float64
		L int
		M uint
		N string
		O []byte
	}
	ChainMix struct {
		A  chain.Name
		B  chain.Asset
		C  chain.ExtendedAsset
		D  chain.Symbol
		E  chain.SymbolCode
		F  chain.TimePoint
		G  chain.TimePointSec
		H  chain.BlockTimestamp
		I  chain.Uint128
		J  chain.Int128
		K  chain.Float128
		L  chain.Checksum160
		M  chain.Checksum256
		N  chain.Checksum512
		O  chain.PublicKey
		P  chain.Signature
		Q  chain.Bytes
		R  chain.Blob
		S  chain.Uint64
		T  chain.BlockNum
		Xs []chain.Asset
		Ys []*chain.PublicKey
	}
	Transfer struct {
		From     chain.Name
		To       chain.Name
		Quantity chain.Asset
		Memo     string
	}
	Opts struct {
		A *uint8       `eosio:"optional"`
		B *string      `eosio:"optional"`
		C *chain.Asset `eosio:"optional"`
		D *Transfer    `eosio:"optional"`
		E uint32       `eosio:"optional"`
		F string       `eosio:"optional"`
		G *[]uint16    `eosio:"optional"`
		H *chain.Bytes `eosio:"optional"`
		I []*Transfer
	}
	Ext struct {
		A uint8
		B string
		C *uint32         `eosio:"extension"`
		D []chain.Name    `eosio:"extension"`
		E *Transfer       `eosio:"extension"`
		F chain.PublicKey `eosio:"extension"`
	}
	Maps struct {
		A map[string]string
		B map[uint32]Transfer
		C map[chain.Name][]uint8
		D map[int32]*Transfer
	}
	Choice struct {
		A *uint8
		B *string
		C *chain.Name
		D *Transfer
		E *[]uint32
		F *chain.Checksum256
	}
	HasChoice struct {
		X uint16
		C Choice  `eosio:"variant"`
		P *Choice `eosio:"variant"`
		Y string
	}
	Nums struct {
		A NU64
		B NU32
		C NI64
		D NI32
		E [3]NU32
		F []NI64
	}
	Arrs struct {
		A [4]uint8
		B [2]string
		C [3]Transfer
		D [0]uint32
		E [2][2]uint16
		F [2]*uint32
	}
	Deep struct {
		T  Tree
		L  List
		O  Opts
		M  Mixed
		Tx chain.Transaction
	}
	Empty struct{}
)

var staticTypes = []reflect.Type{
	reflect.TypeOf(Transfer{}), reflect.TypeOf(chain.PermissionLevel{}), reflect.TypeOf(chain.Action{}), reflect.TypeOf(chain.Transaction{}),
	reflect.TypeOf(chain.TransactionHeader{}), reflect.TypeOf(chain.TransactionExtension{}), reflect.TypeOf(chain.Abi{}), reflect.TypeOf(Mixed{}), reflect.TypeOf(ChainMix{}),
	reflect.TypeOf(Opts{}), reflect.TypeOf(Ext{}), reflect.TypeOf(Maps{}), reflect.TypeOf(HasChoice{}), reflect.TypeOf(Nums{}), reflect.TypeOf(Arrs{}),
	reflect.TypeOf(Tree{}), reflect.TypeOf(List{}), reflect.TypeOf(Deep{}), reflect.TypeOf(Empty{}),
}
