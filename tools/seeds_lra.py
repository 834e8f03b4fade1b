L='common/structure/lra/lra.go'
SEEDS=[
dict(id='lra-readd', prop='C24', needs='a key that is removed and added again, followed by enough new keys to evict', breaks='a removed entry stays in the age list, so a later addition evicts the wrong key early and the table shrinks',
 edits=[(L,'''	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}''','''	if _, hit := c.table[key]; hit {
		delete(c.table, key)
	}''')], pkg='scouterx/common/structure/lra', test='''package lra

import "testing"

func TestVerifDemo(t *testing.T) {
	c := New(3)
	c.Add(1, "1")
	c.Add(2, "2")
	c.Remove(1)
	c.Add(1, "1")
	c.Add(3, "3")
	for i := 1; i <= 3; i++ {
		if !c.Contains(i) {
			t.Fatalf("%d is gone though the limit is not reached", i)
		}
	}
}
'''),
dict(id='lra-refresh', prop='C24', needs='a known key added again before the limit is reached', breaks='replacing a value makes the entry young, so a newer key is dropped in its place',
 edits=[(L,'		ee.Value.(*entry).value = value\n','		ee.Value.(*entry).value = value\n		c.lst.MoveToFront(ee)\n')], pkg='scouterx/common/structure/lra', test='''package lra

import "testing"

func TestVerifDemo(t *testing.T) {
	c := New(3)
	for i := 1; i <= 3; i++ {
		c.Add(i, i)
	}
	c.Add(1, 10)
	c.Add(4, 4)
	if c.Contains(1) || !c.Contains(2) {
		t.Fatal("not the key added first was dropped")
	}
}
'''),
dict(id='lra-values-cap', prop='C24', needs='a table without a limit, or one that holds more entries than the first capacity of the result', breaks='GetValues leaves out entries once its first capacity is used up',
 edits=[(L,'			if kv != nil && kv.value != nil {\n','			if kv != nil && kv.value != nil && (c.MaxEntries != 0 || len(l) < 1000) {\n')], pkg='scouterx/common/structure/lra', test='''package lra

import "testing"

func TestVerifDemo(t *testing.T) {
	c := New(0)
	for i := 0; i < 1500; i++ {
		c.Add(i, i)
	}
	if n := len(c.GetValues()); n != 1500 {
		t.Fatalf("%d values of 1500", n)
	}
}
'''),
]
