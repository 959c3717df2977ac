subroutine stray(y,total)
    implicit none
    REAL(8), intent(in), dimension(64) :: y
    REAL(8), intent(out), dimension(65) :: total
    INTEGER(8) i
    DO i=1,65
        total(i)=1.0D0
    ENDDO
    total(1)=y(1)
end subroutine
