import sys; sys.path.insert(0,'/tmp/seedtool')
exec(open('/tmp/seedtool/b4.py').read().split("s('S22'")[0].split("s('S20'")[0].split("\ns('")[0])
DEC='''
func seedInit(t *testing.T, fee int64) []byte {
	a, err := contract.ContractMetaData.GetAbi()
	if err != nil {
		t.Fatal(err)
	}
	d, err := a.Pack("initialize", common.Address{1}, big.NewInt(5), big.NewInt(fee), common.Address{2}, uint64(7200), uint64(2))
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func seedFee(txs ...*types.Transaction) (int, error) {
	b := types.NewBlockWithHeader(&types.Header{Number: big.NewInt(5)}).WithBody(types.Body{Transactions: txs})
	return decodeInitialPoolFee(b, "0xAdFb8D27671F14f297eE94135e266aAFf8752e35")
}
'''
s('S30','C29','a pool deployed through a proxy whose creation code contains the four bytes of the selector of initialize before the call itself',
 'the oracle starts with the default fee and not with the one the pool was initialized with',
 [('oracle/onchain.go','''			if fee, err := decodePoolFeeFromInitArgs(method, remaining); err == nil {
				return fee, nil
			}''','''			fee, err := decodePoolFeeFromInitArgs(method, remaining)
			if err != nil {
				return 0, errors.Wrap(err, "could not decode the initialize() call of the contract creation")
			}
			return fee, nil''')],
 H('bytes','github.com/ethereum/go-ethereum/common')+DEC+'''
func TestSeedDemo(t *testing.T) {
	in := seedInit(t, 321)
	d := append(append(append([]byte{1, 2, 3}, in[:4]...), bytes.Repeat([]byte{0xff}, 250)...), in...)
	if fee, err := seedFee(types.NewTx(&types.LegacyTx{Data: d})); err != nil || fee != 321 {
		t.Fatal(fee, err)
	}
}
''')
s('S31','C29','another pool that is set up in the block in which this one is deployed, before it',
 'the oracle starts with the fee of another pool',
 [('oracle/onchain.go','''		if tx.To() != nil && *tx.To() == poolAddr {''','''		if tx.To() != nil && (*tx.To() == poolAddr || bytes.Equal(data[:4], selector)) {'''),('oracle/onchain.go','import (\n','import (\n\t"bytes"\n')],
 H('github.com/ethereum/go-ethereum/common')+DEC+'''
func TestSeedDemo(t *testing.T) {
	pool, other := common.HexToAddress("0xAdFb8D27671F14f297eE94135e266aAFf8752e35"), common.Address{7}
	fee, err := seedFee(types.NewTx(&types.LegacyTx{To: &other, Data: seedInit(t, 111)}), types.NewTx(&types.LegacyTx{To: &pool, Data: seedInit(t, 222)}))
	if err != nil || fee != 222 {
		t.Fatal(fee, err)
	}
}
''')
