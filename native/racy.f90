subroutine racy(y,total)
    implicit none
    REAL(8), intent(in), dimension(64) :: y
    REAL(8), intent(out), dimension(64) :: total
    INTEGER(8) i, j
    total(:)=0.0D0
!$OMP PARALLEL DO PRIVATE(i) SHARED(j,total,y)
    DO i=1,64
        j=i
        total(j)=y(i)
    ENDDO
!$OMP END PARALLEL DO
end subroutine
