V='bvector.hh'; B='bcrsmatrix.hh'; D='matrix.hh'; M='multitypeblockvector.hh'
T=[
('r-range','K02','quiet',[(V,'for (size_type i=0; i<this->n; ++i) (*this)[i] *= k;','for (auto& xi : *this) xi *= k;')]),
('r-ptr','K02','quiet',[(V,'for (size_type i=0; i<this->n; ++i) (*this)[i] += y[i];','auto yi=y.begin(); for (auto it=this->begin(); it!=this->end(); ++it,++yi) *it += *yi;')]),
('r-while','K02','quiet',[(V,'for (size_type i=0; i<this->n; ++i) (*this)[i] /= k;','size_type i=this->n; while(i) (*this)[--i] /= k;')]),
('r-norm','K02','quiet',[(V,'''      for (size_type i=0; i<this->n; ++i)
        sum += Impl::asVector((*this)[i]).one_norm();''','''      for (auto it=this->begin(); it!=this->end(); ++it)
        sum = sum + Impl::asVector(*it).one_norm();''')]),
('r-early','K02','quiet',[(V,'''      for (size_type i=0; i<this->n; ++i)
        sum += Impl::asVector((*this)[i]).one_norm();''','''      if (this->n==0) return sum;
      for (size_type i=0; i<this->n; ++i)
        sum += Impl::asVector((*this)[i]).one_norm();''')]),
('r-two','K02','quiet',[(V,'''      typename FieldTraits<field_type>::real_type sum=0;
      for (size_type i=0; i<this->n; ++i) sum += (this->p)[i].two_norm2();
      return sqrt(sum);''','''      return sqrt(two_norm2());''')]),
('r-bcrs','K02','quiet',[(B,'''      if (nnz_ > 0)
      {
        //process 1D array
        for (size_type i=0; i<nnz_; i++)
          a[i] *= k;
      }
      else
      {
        RowIterator endi=end();
        for (RowIterator i=begin(); i!=endi; ++i)
        {
          ColIterator endj = (*i).end();
          for (ColIterator j=(*i).begin(); j!=endj; ++j)
            (*j) *= k;
        }
      }
''','''      for (auto& row : *this) row *= k;
''')]),
('r-frob','K02','quiet',[(B,'''          sum += Impl::asMatrix(entry).frobenius_norm2();''','''          sum = Impl::asMatrix(entry).frobenius_norm2() + sum;''')]),
('r-max','K02','quiet',[(V,'''        norm = max(a, norm);
        isNaN += a;''','''        if (a > norm) norm = a;
        isNaN += a;''',1)]),
('r-addit','K02','quiet',[(B,'''      ConstRowIterator j=b.begin();
      for (RowIterator i=begin(); i!=endi; ++i, ++j) {
        i->operator-=(*j);
      }''','''      for (RowIterator i=begin(); i!=endi; ++i) {
        (*i) -= b[i.index()];
      }''')]),
('r-dmat','K02','quiet',[(D,'''      for (size_type i=0; i<this->N(); i++)
        for (size_type j=0; j<this->M(); j++)
          sum += Impl::asMatrix(data_[i][j]).frobenius_norm2();''','''      for (auto const& row : *this) for (auto const& e : row)
          sum += Impl::asMatrix(e).frobenius_norm2();''')]),
('b-last','K02','alarm',[(V,'for (size_type i=0; i<this->n; ++i) (*this)[i] *= k;','for (size_type i=0; i+1<this->n; ++i) (*this)[i] *= k;')]),
('b-first','K02','alarm',[(V,'''      for (size_type i=0; i<this->n; ++i)
        sum += Impl::asVector((*this)[i]).one_norm_real();''','''      for (size_type i=1; i<this->n; ++i)
        sum += Impl::asVector((*this)[i]).one_norm_real();''')]),
('b-swap','K02','alarm',[(V,'sum += Impl::asVector((*this)[i]).dot(Impl::asVector(y[i]));','sum += Impl::asVector(y[i]).dot(Impl::asVector((*this)[i]));')]),
('b-conj','K02','alarm',[(M,'return a + (*this)[i].dot(newv[i]);','return a + (*this)[i]*newv[i];')]),
('b-nan','K02','alarm',[(V,'''        norm = max(a, norm);
        isNaN += a;''','''        norm = max(a, norm);
        isNaN = a;''',1)]),
('b-search','K02','alarm',[('basearray.hh','''      if (i>=n || j[i]!=''','''      if (i>n || j[i]!=''')]) ,
('b-nnz','K02','alarm',[(B,'a[i] *= k;','a[i] *= (i ? k : 1.0);')]),
('b-realinf','K02','alarm',[(M,'real_type entryNorm = entry.infinity_norm_real();','real_type entryNorm = entry.infinity_norm();')]),
]
