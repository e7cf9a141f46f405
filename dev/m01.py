F='bcrsmatrix.hh'
def m(n,e,*ed): return (n,'M01',e,[(F,)+x for x in ed])
T=[
m('b-setrow-stage','alarm',('''    void setrowsize (size_type i, size_type s)
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
      if (ready != building)''','''    void setrowsize (size_type i, size_type s)
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
      if (ready == built)''')),
m('b-incrow-after','alarm',('      r[i].setsize(r[i].getsize()+s);\n    }','      r[i].setsize(r[i].getsize()+s);\n      if (ready != building) DUNE_THROW(BCRSMatrixError,"x");\n    }'),('''    void incrementrowsize (size_type i, size_type s = 1)
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
      if (ready != building)
        DUNE_THROW(BCRSMatrixError,"matrix row sizes already built up");
''','''    void incrementrowsize (size_type i, size_type s = 1)
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
''')),
m('b-addindex-m','alarm',('      if (col >= m)\n        DUNE_THROW(BCRSMatrixError,"column index exceeds matrix size");\n\n      // get','      if (col > m)\n        DUNE_THROW(BCRSMatrixError,"column index exceeds matrix size");\n\n      // get')),
m('b-addindex-cap','alarm',('      if (end==last)\n        DUNE_THROW(BCRSMatrixError,"row is too small");\n','')),
m('b-addindex-late','alarm',('''      if (end==last)
        DUNE_THROW(BCRSMatrixError,"row is too small");

      // insert new column index at correct position
      std::copy_backward(pos,end,end+1);
      *pos = col;''','''      if (end==last) {
        *pos = col;
        DUNE_THROW(BCRSMatrixError,"row is too small");
      }

      // insert new column index at correct position
      std::copy_backward(pos,end,end+1);
      *pos = col;''')),
m('b-endrows-cap','alarm',('else if(nnz_ < total)','else if(nnz_ < n)')),
m('b-endrows-cap2','alarm',('else if(nnz_ < total)','else if(nnz_+1 < total)')),
m('b-endrows-stage','alarm',('      ready = rowSizesBuilt;','      ready = nnz_ ? rowSizesBuilt : building;')),
m('b-compress-stage','alarm',('      ready = built;\n\n      return stats;','      if (n>0) ready = built;\n\n      return stats;')),
m('b-compress-cap','alarm',('''          //check whether there is enough memory to write to
          if (jiit > begin)
              DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                         "Allocated memory for BCRSMatrix exhausted during compress()!"
                         "Please increase either the average number of entries per row or the compressionBufferSize value."
                         );

          //copy and element''','''          //copy and element''')),
m('b-compress-cap2','alarm',('''          if (jiit > begin)
              DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                         "Allocated memory for BCRSMatrix exhausted during compress()!"
                         "Please increase either the average number of entries per row or the compressionBufferSize value."
                         );

          //copy element''','''          if (jiit > begin + 1)
              DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                         "Allocated memory for BCRSMatrix exhausted during compress()!"
                         "Please increase either the average number of entries per row or the compressionBufferSize value."
                         );

          //copy element''')),
m('b-entry-avg','alarm',('if (r[row].getsize() == avg)','if (r[row].getsize() == avg+1)')),
m('b-entry-size','alarm',('        //increase rowsize\n        r[row].setsize(r[row].getsize()+1);','        //increase rowsize\n        if (col) r[row].setsize(r[row].getsize()+1);')),
m('b-next-nnz','alarm',('if (nnz > Mat.nnz_)','if (nnz > Mat.nnz_ + 1)')),
m('b-next-built','alarm',('if (i==Mat.n)\n        {','if (i+1==Mat.n)\n        {')),
m('b-mode','alarm',('(bm == row_wise || bm == random))','(bm == row_wise || bm == random || bm == implicit))')),
m('b-params','alarm',('      if (ready != notAllocated)\n        DUNE_THROW(InvalidStateException,"You cannot modify build mode','      if (ready == built)\n        DUNE_THROW(InvalidStateException,"You cannot modify build mode')),
m('b-assign','alarm',('if (!((ready == notAllocated || ready == built) && (Mat','if (!((ready != rowSizesBuilt) && (Mat')),
m('b-copy','alarm',('if (!(Mat.ready == notAllocated || Mat.ready == built))','if (Mat.ready == building)')),
m('b-scalar','alarm',('      if (!(ready == notAllocated || ready == built))\n        DUNE_THROW(InvalidStateException,"Scalar','      if (ready == building)\n        DUNE_THROW(InvalidStateException,"Scalar')),
m('b-builder','alarm',('if (m.buildStage() != Matrix::building)','if (m.buildStage() == Matrix::notAllocated)')),
m('b-create','alarm',('if (i==0 && Mat.ready != building)','if (i==0 && Mat.ready == built)')),
m('b-endind','alarm',('''    void endindices ()
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
      if (ready==built)
        DUNE_THROW(BCRSMatrixError,"matrix already built up");
''','''    void endindices ()
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
''')),
m('q-helper','quiet',('''    void setrowsize (size_type i, size_type s)
    {
      if (build_mode!=random)
        DUNE_THROW(BCRSMatrixError,"requires random build mode");
      if (ready != building)
        DUNE_THROW(BCRSMatrixError,"matrix row sizes already built up");
''','''    void requireRowSizeStage() const
    {
      if (build_mode==random && ready == building) return;
      DUNE_THROW(BCRSMatrixError,"not in the row size stage of random build mode");
    }
    void setrowsize (size_type i, size_type s)
    {
      requireRowSizeStage();
''')),
m('q-addindex','quiet',('      if (pos!=last && *pos == col) return;','      const bool present = !(pos==last) && *pos == col;\n      if (present)\n        return;')),
m('q-endrows','quiet',('''      for (size_type i=0; i<n; i++)
      {
        total += r[i].getsize();
      }
''','''      for (RowIterator row=begin(); row!=end(); ++row)
        total += row->getsize();
'''),('''      if(nnz_ == 0)
        // allocate/check memory
        allocate(n,m,total,false,false);
      else if(nnz_ < total)
        DUNE_THROW(''','''      if(nnz_ != 0 && total > nnz_)
        DUNE_THROW('''),('''sufficient for calculated nonzeros ("<<total<<"! ");
''','''sufficient for calculated nonzeros ("<<total<<"! ");
      if(nnz_ == 0)
        allocate(n,m,total,false,false);
''')),
m('q-compress','quiet',('''        while ((oit!=overflow.end()) && (oit->first.first == i))
        {''','''        for (; oit!=overflow.end() && oit->first.first == i; ++oit)
        {'''),('''          *aiit = oit->second;
          ++aiit;
          ++oit;
          r[i].setsize(r[i].getsize()+1);
        }

        // update''','''          *aiit = oit->second;
          ++aiit;
          r[i].setsize(r[i].getsize()+1);
        }

        // update''')),
m('q-entry','quiet',('''      if (pos != end)
        if (*pos == col)
        {''','''      if (pos != end && *pos == col)
        {''')),
]
