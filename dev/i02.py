T = [
 ('refdefect-vbvector','I02','alarm',[('vbvector.hh','block.end(), std::ptrdiff_t(block.size())-1','block.end()',2)]),
 ('before-end','I02','alarm',[('basearray.hh','return iterator(p,p+n-1)','return iterator(p,p+n)',1)]),
 ('find-nomin','I02','alarm',[('basearray.hh','iterator(p,p+std::min(i,n))','iterator(p,p+i)',1)]),
 ('find-const','I02','alarm',[('basearray.hh','const_iterator(p,p+std::min(i,n))','const_iterator(p,p+std::min(i+1,n))',1)]),
 ('begin-base','I02','alarm',[('basearray.hh','return const_iterator(p,p+0)','return const_iterator(p+0,p+1)',1)]),
 ('dist','I02','alarm',[('basearray.hh','return o.i-i;','return i-o.i;')]),
 ('rowdist','I02','alarm',[('bcrsmatrix.hh','return (other.i-i);','return (i-other.i);',1)]),
 ('rowconst','I02','alarm',[('bcrsmatrix.hh','p(it.p), i(it.i)','p(it.p+it.i), i(0)')]),
 ('rowbeforebegin','I02','alarm',[('bcrsmatrix.hh','return Iterator(r,-1);','return Iterator(r,0);',1)]),
 ('colsdec','I02','alarm',[('basearray.hh','        --i;','        ++i;',2)]),
 ('densedec','I02','alarm',[('matrix.hh','        --i;\n        window_.setptr(window_.getptr()-window_.getsize());','        --i;\n        window_.setptr(window_.getptr()-1);',1)]),
 ('denseconstinc','I02','alarm',[('matrix.hh','        ++i;\n        window_.setptr(window_.getptr()+window_.getsize());','        window_.setptr(window_.getptr()+window_.getsize());',2)]),
 ('densebe','I02','alarm',[('matrix.hh','return ConstIterator(this->p, columns_, rows_-1);','return ConstIterator(this->p, columns_, rows_);')]),
 ('quiet-find','I02','quiet',[('basearray.hh','return iterator(p,p+std::min(i,n));','return i < n ? iterator(p,p+i) : end();',1)]),
 ('quiet-rows','I02','quiet',[('bcrsmatrix.hh','return Iterator(r,n-1);','auto it = end(); --it; return it;',1)]),
 ('quiet-dense','I02','quiet',[('matrix.hh','return ConstIterator(this->p, columns_, rows_-1);','auto it = end(); --it; return it;')]),
 ('cfind','I02','alarm',[('basearray.hh','? iterator(p,j,lb-j)','? iterator(p,j,lb-j+1)')]),
 ('cfind-eq','I02','alarm',[('basearray.hh','return (lb != j+n && *lb == i)','return (lb != j+n)',2)]),
 ('cfind-end','I02','alarm',[('basearray.hh','return (lb != j+n && *lb == i)','return (*lb == i)',1)]),
 ('at-ge','I02','alarm',[('basearray.hh','if (lb == j+n || *lb != i)','if (lb == j+n || *lb < i)',2)]),
 ('quiet-cfind','I02','quiet',[('basearray.hh','      return (lb != j+n && *lb == i)\n        ? iterator(p,j,lb-j)\n        : end();','      if (lb == j+n) return end();\n if (*lb == i) { iterator it = begin(); it = iterator(p,j,std::size_t(lb-j)); return it; }\n return end();')]),
 ('quiet-cfind2','I02','quiet',[('basearray.hh','      const size_type* lb = std::lower_bound(j, j+n, i);\n      return (lb != j+n && *lb == i)\n        ? iterator(p,j,lb-j)\n        : end();','      for (size_type k=0; k<n; ++k) if (j[k] == i) return iterator(p,j,k);\n return end();')]),
 ('densefind','I02','alarm',[('matrix.hh','ConstIterator(this->p, columns_, std::min(i,rows_))','ConstIterator(this->p, columns_, i)')]),
 ('denseassign','I02','alarm',[('matrix.hh','      ConstIterator& operator=(const ConstIterator& other)\n      {\n        i = other.i;','      ConstIterator& operator=(const ConstIterator& other)\n      {')]),
 ('xassign','I02','alarm',[('basearray.hh','        p = other.p;\n        i = other.i;\n        return *this;','        i = other.i;\n        return *this;',1)]),
 ('densexassign','I02','alarm',[('matrix.hh','      ConstIterator& operator=(Iterator& other)\n      {\n        i = other.i;','      ConstIterator& operator=(Iterator& other)\n      {')]),
]
