subroutine clean(y,total)
    implicit none
    REAL(8), intent(in), dimension(64) :: y
    REAL(8), intent(out), dimension(64) :: total
    REAL(8) acc
    INTEGER(8) i
    acc=0.0D0
!$OMP PARALLEL DO PRIVATE(i) SHARED(total,y) REDUCTION(+:acc)
    DO i=1,64
        total(i)=2.0D0*y(i)
        acc=acc+y(i)
    ENDDO
!$OMP END PARALLEL DO
    total(1)=acc
end subroutine
