B='bcrsmatrix.hh'; V='bvector.hh'; VB='vbvector.hh'; C='bccsmatrix.hh'; M='matrix.hh'
T=[
('free-size',  'M03','alarm',[(B,'allocator_.deallocate(a,allocationSize_);','allocator_.deallocate(a,nnz_);')]),
('free-row-off','M03','alarm',[(B,'sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());','sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize()+1);')]),
('no-destroy', 'M03','alarm',[(B,'for(B *aiter=a+(allocationSize_-1), *aend=a-1;','for(B *aiter=a+(nnz_-1), *aend=a-1;')]),
('no-null-a', 'M03','alarm',[(B,'            a = nullptr;\n          }\n      }\n      else if (r)','          }\n      }\n      else if (r)')]),
('rows-leak', 'M03','alarm',[(B,'rowAllocator_.deallocate(r,n);\n','')]),
('rows-null', 'M03','alarm',[(B,'        rowAllocator_.deallocate(r,n);\n        r = nullptr;','        rowAllocator_.deallocate(r,n);')]),
('row-reset', 'M03','quiet',[(B,'            r[i].set(0,nullptr,nullptr);\n          }\n      }\n\n      // deallocate the rows','          }\n      }\n\n      // deallocate the rows')]),
('j-size', 'M03','alarm',[(B,'[alloc = sizeAllocator_, size = allocationSize_](auto ptr)','[alloc = sizeAllocator_, size = n](auto ptr)')]),
('assign-n', 'M03','alarm',[(B,'deallocate(n!=Mat.n);','deallocate(n>Mat.n);')]),
('assign-nodealloc', 'M03','alarm',[(B,'deallocate(n!=Mat.n);','if (ready==built) deallocate(n!=Mat.n);')]),
('ctor-rows', 'M03','alarm',[(B,'for(row_type* ri=r; ri!=r+rows; ++ri)','for(row_type* ri=r; ri!=r+columns; ++ri)')]),
('dm-resize', 'M03','alarm',[(M,'        allocator_.deallocate(this->p,this->n);\n      }\n\n      // and we can allocate','        allocator_.deallocate(this->p,rows_*columns_);\n      }\n      // and we can allocate')]),
('dm-resize2', 'M03','alarm',[(M,'      this->n = rows*columns;\n      if (this->n>0)\n      {\n        this->p = allocator_.allocate(this->n);\n        new (this->p)B[this->n];\n      }\n      else\n      {\n        this->n = 0;\n        this->p = nullptr;\n      }\n\n      // we can allocate the windows now\n      rows_ = rows;\n      columns_ = columns;','      if (rows*columns>0)\n      {\n        this->p = allocator_.allocate(rows*columns);\n        new (this->p)B[rows*columns];\n      }\n      else\n      {\n        this->p = nullptr;\n      }\n\n      // we can allocate the windows now\n      rows_ = rows;\n      columns_ = columns;')]),
('dm-assign', 'M03','alarm',[(M,'if (this->n!=a.n || rows_!=a.rows_)','if (this->n<a.n || rows_!=a.rows_)')]),
('dm-assign-rows', 'M03','quiet',[(M,'if (this->n!=a.n || rows_!=a.rows_)','if (rows_!=a.rows_ || this->n!=a.n)')]),
('cc-leak', 'M03','alarm',[(C,'      delete[] rowindex;\n','')]),
('cc-null', 'M03','alarm',[(C,'      rowindex = nullptr;\n','')]),
('cc-size', 'M03','alarm',[(C,'rowindex = new Index[Nnz_];','rowindex = new Index[N_];')]),
('vb-sync', 'M03','alarm',[(VB,'swap(initialized, other.initialized);\n\n      other.syncBaseArray();','swap(initialized, other.initialized);\n')]),
('vb-resize', 'M03','alarm',[(VB,'      storage_.clear();\n\n      syncBaseArray();','      storage_.clear();\n')]),
('vb-window', 'M03','alarm',[(VB,'block[i].set(block[i].getsize(),block[i-1].getptr()+block[i-1].getsize());','block[i].set(block[i].getsize(),block[i-1].getptr()+block[i].getsize());')]),
('vb-syncearly', 'M03','alarm',[(VB,'      storage_.resize(numBlocks*blockSize);\n      block.resize(numBlocks);\n      syncBaseArray();','      syncBaseArray();\n      storage_.resize(numBlocks*blockSize);\n      block.resize(numBlocks);')]),
('bv-sync', 'M03','alarm',[(V,'      storage_.resize(size);\n','      if (size > storage_.capacity()) { storage_.resize(size); } else storage_.resize(size);\n'),(V,'      this->n = storage_.size();','      this->n = storage_.capacity();')]),
# behaviour preserving
('q-free-fwd', 'M03','quiet',[(B,'for(B *aiter=a+(allocationSize_-1), *aend=a-1; aiter!=aend; --aiter)','for(B *aiter=a, *aend=a+allocationSize_; aiter!=aend; ++aiter)')]),
('q-assign', 'M03','quiet',[(B,'deallocate(n!=Mat.n);','const bool rowsDiffer = (n!=Mat.n); deallocate(rowsDiffer);')]),
('q-rows-loop', 'M03','quiet',[(B,'for(row_type* ri=r; ri!=r+rows; ++ri)\n            std::allocator_traits<decltype(rowAllocator_)>::construct(rowAllocator_, ri, row_type());','for(size_type k=0; k<rows; ++k)\n            std::allocator_traits<decltype(rowAllocator_)>::construct(rowAllocator_, r+k, row_type());')]),
('q-cc', 'M03','quiet',[(C,'        for(size_type i=0; i<Nnz_; ++i)\n          values[i]=mat.values[i];\n\n        for(size_type i=0; i<Nnz_; ++i)\n          rowindex[i]=mat.rowindex[i];','        for(size_type i=0; i<Nnz_; ++i) {\n          rowindex[i]=mat.rowindex[i];\n          values[i]=mat.values[i]; }')]),
('q-cc2', 'M03','quiet',[(C,'for(size_type i=0; i<=M_; ++i)','for(size_type i=0; i<M_+1; ++i)')]),
('q-dm', 'M03','quiet',[(M,'        size_type i=this->n;\n        while (i)\n          this->p[--i].~B();\n        allocator_.deallocate(this->p,this->n);\n      }\n    }','        for (size_type i=0; i<this->n; ++i)\n          this->p[i].~B();\n        allocator_.deallocate(this->p,this->n);\n      }\n    }')]),
('q-dm2', 'M03','quiet',[(M,'      else\n      {\n        this->n = 0;\n        this->p = nullptr;\n      }\n\n      // we can allocate the windows now\n      rows_ = rows;\n      columns_ = columns;','      else\n        this->p = nullptr;\n\n      // we can allocate the windows now\n      columns_ = columns;\n      rows_ = rows;')]),
('q-vb', 'M03','quiet',[(VB,'        block[0].set(block[0].getsize(),this->p);           // first block\n        for (size_type i=1; i<block.size(); ++i)                         // and the rest\n          block[i].set(block[i].getsize(),block[i-1].getptr()+block[i-1].getsize());','        auto* q = this->p;\n        for (size_type i=0; i<block.size(); ++i) {\n          block[i].set(block[i].getsize(),q); q += block[i].getsize(); }')]),
('q-vb2', 'M03','quiet',[(VB,'for (size_type i=0; i<block.size(); ++i)\n        block[i].set(blockSize,this->p+(i*blockSize));','const size_type nb = block.size();\n      for (size_type i=0; i<nb; ++i)\n        block[i].set(blockSize,this->p+(blockSize*i));')]),
('q-rowsdealloc', 'M03','quiet',[(B,'if (n>0 && deallocateRows && r) {','if (r && deallocateRows && n>0) {')]),
]
