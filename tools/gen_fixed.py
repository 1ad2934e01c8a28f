import json,subprocess
log=dict(l.split(' ',1)[::-1] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','2f4281d..HEAD']).decode().strip().split('\n'))
M=[("isPerm accepted","P04"),("isInversePerm","P04"),("transpose of a matrix without","P11"),("parMemset","P02"),("loadMatrixMarket overran","P06"),("Matrix Market header","P07"),("Matrix Market output","P08"),("CSR file constructor","P07"),("loadVectorMatrixMarket","P29"),("isSymmetric ignored","P12"),("hasZeroDiag","P12"),("equals read","P12"),("the CSR copy","P13"),("switching the","P10"),("storeBin left","P09"),("permuteRows of a one","P14"),("multiplyWithVector in place","P15"),("products read y","P15"),("dense-matrix product of a one","P16"),("dense-matrix product read NULL","P16"),("Laplacian row","P19"),("permutations read NULL","P14"),("getSymmetricNnzPattern overran","P18"),("getSymmetricNnzPattern left","P18"),("splitLU read","P17"),("write the barrier","P26"),("recreate the barrier","P26"),("write the reducing","P27"),("double-buffer","P27"),("do not let a reducing","P27"),("keep trailing rows","P20"),("keep threads from overrunning","P20"),("make room for intra","P20"),("keep the parent lists","P22"),("don't write a component size","P24"),("don't lose unions","P24"),("make room for the row pointers of the BFS","P23"),("make room for the level offsets","P23"),("make room for last-level","P23"),("don't start a BFS","P23"),("make room for the last row pointer","P25"),("align blocks","P28"),("don't free memory of the pool","P20"),("define LoadImba","P31"),("free the per-thread","P31"),("do not free the records","P31"),("let matrices the library allocates","P32"),("free the union-find","P32"),("free the connected components","P32"),("close the file COO","P32"),("free the type string","P32"),("free the buffers of Matrix","P32"),("free the task graph","P32"),("don't report Matrix","P33"),("read the entries of integer","P33"),("close Matrix Market files","P33"),("report entries mm_read","P33"),("storing a matrix without","P08"),("reject binary matrix","P35"),("correctnessCheck","P36")]
try: extra=json.load(open('/tmp/kfmap.json'))
except Exception: extra=[]
out=[]
for subj,h in reversed(list(log.items())):
    if not subj.startswith('fix: '): continue
    s=subj[5:]; p=[q for k,q in M+[tuple(e) for e in extra] if s.startswith(k)]
    assert p,s
    out.append("fixed: property=%s %s %s"%(p[0],h,s))
d=json.load(open('/verif/known_findings.json')); d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1); print(len(out))
